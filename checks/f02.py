from vf import *
from f01 import WRAP, QUIET
import hashlib

class F02(Check):
    prop = 'F02'
    spec = 'Fileout'
    mcs = [('1 output file of at most 3 bytes, every first part given, errors', 'CONSTANTS NS = 1 MaxLen = 3 Small = 1\nINVARIANT Consistent\n', True, 'Fileout', 'out',
            "/\\ \\A k \\in K : Len(st'[k].c) + Len(st'[k].w) <= MaxLen"),
           ('1 input file over 17 short texts', 'CONSTANTS NS = 1\nINVARIANT Position ReadsBack\n', True, 'Textin', 'in')]
    drivers = [dict(name='fileout', link=WRAP, env=QUIET, spec='Fileout', consts='CONSTANTS NS = 2 MaxLen = 0 Small = 0\n', tag='out'),
               dict(name='textfile', link=WRAP, env=QUIET, spec='Textin', consts='CONSTANTS NS = 2\n', tag='in')]
    limit = 6000
    assumptions = ['reads that would block, setting state bits by hand, and putting back other characters than were read are not constrained']

    def adapt(self, seg, drv):
        if drv['tag'] == 'out': return seg
        rnd = random.Random(hashlib.md5(repr(seg).encode()).hexdigest())
        out = []
        for l in seg:
            f = l.split(' ')
            if f[0] == 'new': f[2] = str(self.kind(rnd))
            elif f[0] == 'clear': f.append('0')
            elif f[0] == 'seek': f = ['fseekg', f[1], f[2], '0', '0']
            elif f[0] == 'sync': f = ['fsync', f[1], '0', '0']
            elif f[0] == 'rest': f = ['tellg', f[1]]
            elif f[0] == 'unget' and rnd.random() < .5: f.append('1')
            out.append(' '.join(f))
        return out

    def kind(self, rnd):
        # how it is made, the size of the buffer, the way reads are cut
        return rnd.randrange(3) + (4 * rnd.randrange(8)) + (32 * rnd.randrange(8))

    def scripts(self, tier, rnd, drv):
        n = 1000 if tier == 'quick' else 15000
        return [self.out(rnd) for _ in range(n)] if drv['tag'] == 'out' else [self.inp(rnd) for _ in range(n)]

    def out(self, rnd):
        r = rnd.randrange
        s = []
        Z = [0, 0, 0, 0]
        big = rnd.random() < .15
        bad = rnd.random() < .5
        def quirks():
            if rnd.random() < .4: return []
            return [rnd.choice([0, 1, 1, 2, 3, 7, 100, 2000, -4, -4, -11] + ([-5, -28, -1000, -32] if bad else [])) for _ in range(r(1, 7))]
        def data(zero):
            n = rnd.choice([0, 1, 1, 2, 3, 7, 20, 61]) if not big else rnd.choice([1, 30, 500, 1300, 2047, 4090, 4094, 4095, 4096, 5000])
            if n > 100: b = r(1, 250); return [(b + i // 7) % 255 + 1 for i in range(n)]
            return [r(0 if zero else 1, 256) for _ in range(n)]
        s.append(L('make', 1, rnd.choice([2, 2, 34, 6, 3]), r(3), [], Z))
        if rnd.random() < .6: s.append(L('make', 2, rnd.choice([2, 34, 6]), r(3), [], Z))
        if rnd.random() < .3: s.append(L('exceptions', 1, rnd.choice([1, 2, 4, 6, 7]), [], Z))
        for _ in range(12 if big else 26):
            k = rnd.choice([1, 1, 2])
            x = rnd.random()
            q = quirks()
            if x < .12: s.append(L('put', k, r(3), [r(1, 256)], q, Z))
            elif x < .3: s.append(L('write', k, r(2), data(True), q, Z))
            elif x < .42: s.append(L('str', k, r(3), data(False), q, Z))
            elif x < .5: s.append(L('int', k, rnd.choice([0, 7, -1, 123456789, -987654, 2147483647]), [], q, Z))
            elif x < .58: s.append(L('fmt', k, rnd.choice([0, 1, 9, 50, 390]), [], q, Z))
            elif x < .64: s.append(L('line', k, 0, [10], q, Z))
            elif x < .74: s.append(L('flush', k, q, Z))
            elif x < .79: s.append(L('seekp', k, rnd.choice([0, 0, 1, 5, -1, -3, 70]), r(3), q, Z))
            elif x < .82: s.append(L('tellp', k, [], Z))
            elif x < .85: s.append(L('open', k, rnd.choice([2, 34, 6, 3]), 0, [], Z))
            elif x < .87: s.append(L('make', k, rnd.choice([2, 34, 6, 3]), r(3), [], Z))
            elif x < .91: s.append(L(rnd.choice(['close', 'close', 'kill']), k, q, Z))
            elif x < .98: s.append(L('clear', k, [], Z))
            else: s.append(L('exceptions', k, rnd.choice([0, 2, 4, 7]), [], Z))
        return s

    def inp(self, rnd):
        import t02
        r = rnd.randrange
        s = []
        for l in t02.check.one(rnd):
            f = l.split(' ')
            if f[0] in ('new', 'settext'):
                t = f[-1]
                if rnd.random() < .04: t = '[%s]' % ','.join(str(c) for _ in range(60) for c in t02.check.text(rnd))
                n = 0 if t == '[]' else t.count(',') + 1
                x = rnd.random()
                if x < .25: l = 'newfault %s %d %s %d %d' % (f[1], self.kind(rnd), t, r(n + 1), rnd.choice([5, 5, 13, 110]))
                elif x < .4: l = 'reopen %s %s' % (f[1], t)
                else: l = 'new %s %d %s' % (f[1], self.kind(rnd), t)
            elif f[0] == 'clear' or f[0] == 'setstate': l = 'clear %s 0 0' % f[1]
            elif f[0] == 'seekg': l = 'fseekg %s %s %s 0' % tuple(f[1:4])
            elif f[0] == 'seek': l = 'fseekg %s %s 0 0' % (f[1], f[2])
            elif f[0] == 'sync': l = 'fsync %s 0 0' % f[1]
            elif f[0] in ('str', 'rest'): l = 'tellg %s' % f[1]
            s.append(l)
        return s

check = F02()
