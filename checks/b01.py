from vf import *

class B01(Check):
    prop = 'B01'
    spec = 'Bstream'
    trace_consts = 'CONSTANTS NS = 2 MaxLen = 0 Bytes = {} Part = 0\n'
    mcs = [('1 input stream over at most 4 bytes', 'CONSTANTS NS = 1 MaxLen = 4 Bytes = {0,1} Part = 1\nINVARIANT InBounds\nPROPERTIES OutKeeps Quiet\n', True),
           ('1 output stream over at most 2 bytes', 'CONSTANTS NS = 1 MaxLen = 2 Bytes = {0,1} Part = 2\nINVARIANT InBounds\nPROPERTIES OutKeeps Quiet\n', True)]
    mcs_thorough = [('1 input stream over at most 5 bytes', 'CONSTANTS NS = 1 MaxLen = 5 Bytes = {0,1} Part = 1\nINVARIANT InBounds\nPROPERTIES OutKeeps Quiet\n', True),
           ('1 output stream over at most 3 bytes', 'CONSTANTS NS = 1 MaxLen = 3 Bytes = {0,1} Part = 2\nINVARIANT InBounds\nPROPERTIES OutKeeps Quiet\n', True)]
    drivers = [dict(name='bstream')]
    limit = 20000
    assumptions = ['blocks are aligned to 16 bytes and words are read and written at aligned positions, as documented', 'insertion and erasure are within what was written; sizes are far below the width of the size type']

    def scripts(self, tier, rnd, drv):
        return [self.one(rnd) for _ in range(1800 if tier == 'quick' else 25000)]

    def one(self, rnd):
        r = rnd.randrange
        big = rnd.choice([2, 5, 9, 17, 40])
        lst = lambda n=None: [rnd.choice([0, 65, r(256)]) for _ in range(r(big) if n is None else n)]
        k = lambda: rnd.choice([1, 1, 2])
        x = rnd.choice([0, 0, 2, 4, 7, None])
        s = []
        for i in (1, 2):
            s += [L('link', i, lst(rnd.choice([big, big - 1, r(big)])), r(6)), L('olink', i, rnd.choice([big, r(big), 0]), r(256), r(6))]
            if x is not None: s += [L('exceptions', i, x), L('oexceptions', i, x)]
        w = lambda: rnd.choice([1, 2, 4, 8])
        for _ in range(rnd.choice([10, 25, 60])):
            o = rnd.choice(['read', 'read', 'readl', 'get', 'get', 'getop', 'readsome', 'strz', 'strz', 'verify', 'words', 'walk', 'walk', 'seek', 'iseek', 'seekg', 'seekg', 'skip', 'ungetc', 'align', 'aligned', 'flags', 'clear', 'setstate', 'exceptions', 'swap', 'link', 'unlink',
                            'write', 'write', 'writel', 'put', 'put', 'putop', 'wstrz', 'wordso', 'insert', 'erase', 'drain', 'drainop', 'unread', 'unreadop', 'written', 'writtenop', 'view', 'oseek', 'oseek', 'oiseek', 'seekp', 'oskip', 'oalign', 'oalign', 'oaligned', 'oflags', 'oclear', 'osetstate', 'oexceptions', 'oswap', 'olink', 'overify'])
            if o in ('read', 'readl', 'readsome', 'verify', 'overify', 'skip', 'oskip'): a = [rnd.choice([0, 1, 2, r(big + 2)])]
            elif o in ('seek', 'iseek', 'oseek', 'oiseek'): a = [rnd.choice([0, r(big), r(big), big + r(4)])]
            elif o in ('get', 'getop', 'words', 'align', 'aligned', 'oalign', 'oaligned'): a = [w()]
            elif o == 'walk': a = [w(), r(big), r(big), r(3)]
            elif o in ('seekg', 'seekp'): a = [rnd.choice([0, -1, 1, r(-big, big)]), r(3)]
            elif o in ('clear', 'oclear', 'exceptions', 'oexceptions', 'setstate', 'osetstate'):
                if rnd.random() < .7: continue
                a = [rnd.choice([0, 0, r(8)])]
            elif o in ('swap', 'oswap', 'drain', 'drainop', 'unread', 'unreadop', 'written', 'writtenop'): a = [k()]
            elif o == 'link':
                if rnd.random() < .6: continue
                a = [lst(), r(6)]
            elif o == 'olink':
                if rnd.random() < .6: continue
                a = [r(big + 1), r(256), r(6)]
            elif o in ('unlink', 'ounlink'):
                if rnd.random() < .8: continue
                a = []
            elif o in ('write', 'writel'): a = [lst(rnd.choice([0, 1, 2, r(big + 2)]))]
            elif o in ('put', 'putop'): a = [lst(w())]
            elif o == 'wstrz': a = [[r(1, 256) for _ in range(r(big))]]
            elif o == 'wordso': a = [w(), lst()]
            elif o in ('insert', 'erase'): a = [r(big), rnd.choice([0, 1, r(big)]), r(256)]
            else: a = []
            s.append(L(o, k(), *a))
        return s

check = B01()
