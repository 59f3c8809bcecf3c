from vf import *

WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in 'open close read write lseek fstat fsync fcntl mmap munmap msync'.split())]

# no memory-limit thread, which opens files of its own
QUIET = dict(ASAN_OPTIONS=RUNENV['ASAN_OPTIONS'].replace('hard_rss_limit_mb=6000:', ''))

class F01(Check):
    prop = 'F01'
    spec = 'Files'
    trace_consts = 'CONSTANTS NS = 2 NF = 2 MaxLen = 0 Small = 0\n'
    mcs = [('1 stream, 1 file of at most 2 bytes, a fault in every call', 'CONSTANTS NS = 1 NF = 1 MaxLen = 2 Small = 1\nINVARIANT Owned\n', True)]
    mcs_thorough = [('1 stream, 1 file of at most 2 bytes, every fault in every call', 'CONSTANTS NS = 1 NF = 1 MaxLen = 2 Small = 0\nINVARIANT Owned\n', True)]
    mc_rest = "/\\ \\A f \\in F : Len(os'.fl[f].c) <= MaxLen /\\ \\A i \\in 1..Len(os'.ds) : os'.ds[i].p <= 2"
    drivers = [dict(name='files', link=WRAP, env=QUIET)]
    limit = 6000
    assumptions = ['faults are injected at the entries to the system, which otherwise is the real one; an interrupted or failed close has closed the descriptor, as on Linux']

    def scripts(self, tier, rnd, drv):
        return [self.one(rnd) for _ in range(1500 if tier == 'quick' else 25000)]

    def quirks(self, rnd, first=()):
        r = rnd.randrange
        if rnd.random() < .45: return list(first)
        q = [rnd.choice([0, 0, 1, 1, 2, 3, 5, 7, -4, -4, -11, -5, -28, -1000]) for _ in range(r(1, 7))]
        return list(first) + q

    def errs(self, rnd, n=2):
        return [] if rnd.random() < .6 else [rnd.choice([0, 0, -4, -5, -28]) for _ in range(n)]

    def one(self, rnd):
        r = rnd.randrange
        s = []
        data = lambda n: [r(256) for _ in range(n)]
        size = lambda: rnd.choice([0, 1, 2, 3, 5, 8, 13, 40, 100])
        mode = lambda: rnd.choice([1, 2, 3, 3, 3, 6, 7, 10, 11, 34, 35, 130, 131, 67, 33, 19, 259, 162, 163, 138, 35, 98])
        if rnd.random() < .7: s.append(L('writefile', r(1, 3), data(size()), 420, []))
        if rnd.random() < .5: s.append(L('exceptions', r(1, 3), rnd.choice([1, 2, 4, 5, 6, 7, 7])))
        s.append(L('open', 1, r(1, 3), mode(), 420, []))
        for _ in range(24):
            k = r(1, 3)
            x = rnd.random()
            if x < .08: s.append(L('open', k, r(1, 3), mode(), rnd.choice([420, 438, 384, 511]), rnd.choice([[], [], [], [0, -4], [0, -5], [-13], [-24, -5], [-4], [-5, -4]])))
            elif x < .1: s.append(L('make', k, r(1, 3), mode(), self.errs(rnd)))
            elif x < .13: s.append(L(rnd.choice(['attach', 'attach', 'attachmake']), k, r(1, 3), mode(), self.errs(rnd, 1)))
            elif x < .14: s.append(L('attachnone', k, r(1, 3), rnd.choice([9, 24]), self.errs(rnd, 1)))
            elif x < .16: s.append(L(rnd.choice(['attachown', 'detach', 'pos']), k))
            elif x < .2: s.append(L(rnd.choice(['close', 'close', 'kill']), k, self.errs(rnd, 1)))
            elif x < .23: s.append(L(rnd.choice(['sync', 'size']), k, self.errs(rnd, 1)))
            elif x < .33: s.append(L('seek', k, rnd.choice([0, 0, 1, -1, -3, 5, 30]), r(3), self.errs(rnd, 1)))
            elif x < .35: s.append(L('nonblock', k, r(2), self.errs(rnd)))
            elif x < .52: s.append(L('read', k, size(), [f for f in self.quirks(rnd) if f != -1000]))
            elif x < .58: s.append(L('readsome', k, size(), [f for f in self.quirks(rnd) if f != -1000]))
            elif x < .76: s.append(L('write', k, data(size()), self.quirks(rnd)))
            elif x < .8: s.append(L('map', k, rnd.choice([1, 5, 50]), 0, r(256), self.errs(rnd, 3)))
            elif x < .84: s.append(L('readfile', r(1, 3), [f for f in self.quirks(rnd, rnd.choice([[0, 0], [0, 0], [-2], [0, -5]])) if f != -1000]))
            elif x < .88: s.append(L('writefile', r(1, 3), data(size()), rnd.choice([420, 438, 384]), [f for f in self.quirks(rnd, rnd.choice([[0], [0], [-13]])) if f != -11]))
            elif x < .9: s.append(L('remove', r(1, 3)))
            else: s.append(L(rnd.choice(['clear', 'clear', 'clear', 'setstate', 'exceptions']), k, rnd.choice([0, 0, 0, 2, 4, 7])))
        return s

check = F01()
