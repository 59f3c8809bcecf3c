from vf import *

class T02(Check):
    prop = 'T02'
    spec = 'Textin'
    trace_consts = 'CONSTANTS NS = 2\n'
    mcs = [('1 stream over 17 short texts', 'CONSTANTS NS = 1\nINVARIANT Position ReadsBack\n', True)]
    drivers = [dict(name='textin')]
    limit = 6000
    assumptions = ['the value of an integer outside the range of its type is not constrained; floating point values are compared to 1/256']

    def scripts(self, tier, rnd, drv):
        return [self.one(rnd) for _ in range(1600 if tier == 'quick' else 20000)]

    def text(self, rnd, ascii=False):
        r = rnd.randrange
        t = []
        for _ in range(rnd.choice([0, 1, 2, 3, 5, 8, 14])):
            x = rnd.random()
            if x < .3: t += self.num(rnd)
            elif x < .45: t += [r(97, 123) for _ in range(rnd.choice([1, 2, 5, 20]))]
            elif x < .55:
                q = rnd.choice([34, 39])
                t += [q] + [rnd.choice([92, 92, 34, 39, 116, 110, 114, 98, 69, 32, 97, 44]) for _ in range(r(6))] + ([q] if rnd.random() < .8 else [])
            elif x < .62: t += [ord(c) for c in rnd.choice(['true', 'false', 'tru', 'fals', 't', 'f', '1', '0', 'truex', 'trte', 'ffalse'])]
            elif x < .68: t += [92, rnd.choice([92, 32, 34, 116, 110, 120])]
            elif x < .76: t += list(chr(rnd.choice([233, 0x20ac, 0x1d11e, 128, 0x7ff, 0x800, 0xffff, 0x10000])).encode('utf-8', 'surrogatepass'))
            elif x < .8: t += [r(256) if not ascii else r(1, 128)]
            elif x < .82: t += [0]
            if rnd.random() < .75: t += [rnd.choice([32, 32, 10, 10, 44, 9, 13, 58, 59, 46, 63, 32]) for _ in range(rnd.choice([1, 1, 1, 2, 3]))]
        if rnd.random() < .3 and t: t = t[:r(len(t))]
        return t

    def num(self, rnd):
        r = rnd.randrange
        x = rnd.random()
        b = rnd.choice([15, 16, 31, 32, 63, 64])
        v = rnd.choice([0, 1, 7, 8, 12345, r(10 ** 6), 2 ** b, 2 ** b - 1, -2 ** b, -(2 ** b) + 1, -r(1000), 10 ** 19, 2 ** 64 + 5])
        if x < .4: s = str(v)
        elif x < .5: s = '%x' % abs(v)
        elif x < .6: s = '0x%X' % abs(v)
        elif x < .68: s = '%o' % abs(v)
        elif x < .75: s = '0%o' % abs(v)
        elif x < .8: s = rnd.choice(['0x', '-', '+', '--1', '+5', '-0', '09', '- 1', '00x1', '0xg'])
        else:
            s = rnd.choice(['', '-', '+']) + str(rnd.choice([0, 1, 99, r(8192), r(10 ** 6)])) + rnd.choice(['', '.', '.5', '.25', '.%d' % r(1000), '.0000001', '.999']) + rnd.choice(['', '', 'e1', 'E-2', 'e+3', 'e', 'e-', 'e0'])
        return [ord(c) for c in s]

    def one(self, rnd):
        r = rnd.randrange
        uni = rnd.random() < .15
        s = []
        def new(k):
            t = self.text(rnd)
            if uni: t = [c for c in t if c < 128] + list('aé€\U0001d11e z'.encode())[:r(14)]
            s.append(L('new', k, r(5), t) if rnd.random() < .7 else L('settext', k, t))
        new(1); new(2)
        if rnd.random() < .3: s.append(L('exceptions', 1, rnd.choice([2, 4, 6, 7])))
        if rnd.random() < .25:
            # numbers in one base after another
            t = []
            for _ in range(7): t += self.num(rnd) + [rnd.choice([32, 44, 10])]
            s.append(L('new', 2, r(5), t))
            for _ in range(7):
                if r(2): s.append(L('manip', 2, rnd.choice([128, 256, 512])))
                n = rnd.choice([1, 2, 4, 5]); s.append(L('int', 2, n, r(2), [0] * {1: 1, 2: 2, 4: 4, 5: 4}[n], r(2)))
        for _ in range(26):
            k = rnd.choice([1, 1, 2])
            x = rnd.random()
            if x < .06: new(k)
            elif x < .24:
                t = rnd.choice([1, 2, 2, 4, 5]); s.append(L('int', k, t, r(2), [0] * {1: 1, 2: 2, 4: 4, 5: 4}[t], r(2)))
            elif x < .32: s.append(L('float', k, r(3), 0, 0, 0))
            elif x < .42: s.append(L('word', k, r(2)))
            elif x < .47: s.append(L('char', k, r(5)))
            elif x < .52: s.append(L('bool', k, r(2)))
            elif x < (.65 if uni else .53): s.append(L('wchr', k))
            elif x < .67: s.append(L(rnd.choice(['get', 'getline', 'getline', 'ignore']), k, rnd.choice([0, 1, 2, 3, 5, 9, 40]), rnd.choice([10, 10, 32, 44, 0, 46]), *([r(2)] if rnd.random() < .0 else [])))
            elif x < .69: s.append(L('ignore', k, rnd.choice([0, 1, 3, 50]), rnd.choice([0, 32, 10]), r(2)))
            elif x < .75: s.append(L(rnd.choice(['gets', 'getlines', 'fgetline']), k, rnd.choice([10, 10, 32, 44])))
            elif x < .8: s.append(L(rnd.choice(['get1', 'getc', 'peek', 'peek', 'unget']), k))
            elif x < .84: s.append(L(rnd.choice(['read', 'readsome']), k, rnd.choice([0, 1, 2, 4, 8, 33]), r(2)))
            elif x < .85: s.append(L(rnd.choice(['bits', 'str', 'rest', 'sync']), k))
            elif x < .88: s.append(L('seek', k, r(12)) if r(2) else L('seekg', k, rnd.choice([0, -1, 1, -3, 4]), r(3)) if r(2) else L('skip', k, r(4)))
            elif x < .91: s.append(L('delims', k, rnd.choice([[32, 10], [44], [32, 9, 10, 13, 59, 58, 44, 46, 63], [], list(range(33, 48)), list(range(32, 50)), [32] + list(range(58, 64))])))
            elif x < .95: s.append(L('manip', k, rnd.choice([128, 256, 512, 512, 1024, 2048, 4096, 8192, 16384, 2])) if r(3) else L(rnd.choice(['flags', 'setf', 'unsetf']), k, rnd.choice([0, 128, 256, 512])) if r(3) else L('setfm', k, rnd.choice([128, 256, 512, 4096]), rnd.choice([896, 896, 28672])))
            else: s.append(L(rnd.choice(['clear', 'clear', 'setstate', 'exceptions']), k, rnd.choice([0, 0, 2, 4, 7])))
        return s

check = T02()
