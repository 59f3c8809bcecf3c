from vf import *

class M01(Check):
    prop = 'M01'
    spec = 'Mem'
    trace_consts = 'CONSTANTS NB = 3 NL = 1 NR = 1 MemLen = 12 MaxLen = 0 Bytes = {}\n'
    mcs = [('1 block, 1 writable view, at most 2 bytes', 'CONSTANTS NB = 2 NL = 1 NR = 0 MemLen = 1 MaxLen = 2 Bytes = {1}\nINVARIANT TypeOK\nPROPERTIES MemOnlyByWrite Private\n', True)]
    drivers = [dict(name='mem')]
    assumptions = ['views into a block are unlinked before calls that may move its storage', 'arguments do not alias the modified block']

    def adapt(self, seg, drv):
        out = []
        for l in seg:
            out.append(l)
        return out

    def scripts(self, tier, rnd, drv):
        n = 1200 if tier == 'quick' else 20000
        out = [[L('assign', 1, [1, 2, 3]), L('reserve_g', 1, g, e), L('sizes', 1)] for g, e in ((2100, 0), (1500, 1))]
        for es in (2, 4, 8, 12, 16, 16, 24, 32, 48, 64) * (2 if tier == 'quick' else 40):
            m = rnd.randrange(es, 400)
            seg = [L("new_n", 1, m, 7)]
            for _ in range(6):
                p = rnd.choice([0, 16, rnd.randrange(m)])
                seg += [L('fill', 1, p, [rnd.randrange(1, 256) for _ in range(es)], rnd.randrange(m)), L("insert", 1, rnd.randrange(m), rnd.randrange(60), 3), L("erase", 1, rnd.randrange(m), rnd.randrange(60))]
            out.append(seg)
        return out + [self.one(rnd, rnd.choice([6, 12, 40]), rnd.choice([3, 8, 40, 130, 300])) for _ in range(n)]

    def one(self, rnd, length, big):
        s = []
        r = rnd.randrange
        val = lambda: r(1, 256)
        lst = lambda: [val() for _ in range(rnd.choice([0, 1, 2, 3, 5, 9, 33, r(big + 1)]))]
        ops = {'resize': 'knv', 'clear': 'k', 'assign': 'kl', 'copy': 'kj', 'move': 'kj', 'swap': 'kj', 'dealloc': 'k', 'new_n': 'knv', 'new_pn': 'kl',
               'new_copy': 'kj', 'new_move': 'kj', 'reserve': 'knb', 'shrink': 'k', 'copy_link': 'k', 'insert': 'knnv', 'erase': 'knn', 'release': 'k', 'manage': 'kl',
               'link': 'kmm', 'link_null': 'kn', 'link_obj': 'kj', 'unlink': 'k', 'vresize': 'kn', 'vswap': 'kj', 'write': 'knv', 'fill': 'kplc', 'vinsert': 'kmmv', 'verase': 'kmmv',
               'mem_set': 'mv', 'equal': 'kj', 'sizes': 'k'}
        names = list(ops) + ['insert', 'erase', 'link', 'reserve', 'resize', 'write', 'mem_set', 'link_obj', 'assign']
        for _ in range(length):
            o = rnd.choice(names)
            if o == 'fill':
                s.append(L(o, r(1, 5), rnd.choice([r(big), r(big) & ~15]), [val() for _ in range(rnd.choice([1, 1, 2, 3, 4, 5, 8, 16, 16, 32, 48]))], r(rnd.choice([3, 8, big]))))
                continue
            a = []
            for c in ops[o]:
                a.append({'k': lambda: rnd.choice([1, 1, 2, 2, 3, 4, 5]), 'j': lambda: r(1, 6), 'n': lambda: r(big), 'v': val, 'l': lst, 'm': lambda: r(13), 'b': lambda: r(2)}[c]())
            s.append(L(o, *a))
        return s

check = M01()
