from vf import *

def mc(name, ks, ln, vals):
    return (name, 'CONSTANTS Conf = "%s" MaxLen = %d Vals = {%s}\nPROPERTY SpliceKeeps\n' % (ks, ln, vals), True, 'Lists', ks)
def drv(ks, *fl):
    return dict(name='lists', flags=list(fl) + (['-DDRV_KINDS="%s"' % ks] if ks else []), consts='CONSTANTS Conf = "%s" MaxLen = 0 Vals = {}\n' % (ks or 'all'), tag=ks)

class C05(Check):
    prop = 'C05'
    spec = 'Lists'
    mcs = [mc('2 lists of at most 3', 'll', 3, '1,2'), mc('2 queues of at most 4', 'qq', 4, '1,2'), mc('2 stacks of at most 4', 'kk', 4, '1,2')]
    mcs_thorough = [mc('2 lists of at most 4', 'll', 4, '1,2'), mc('2 queues of at most 5', 'qq', 5, '1,2'), mc('2 stacks of at most 5', 'kk', 5, '1,2')]
    drivers = [drv('ll', '-DDRV_T=int32_t'), drv('qq', '-DDRV_T=uint8_t'), drv('kk', '-DDRV_T=int32_t'),
               drv('', '-DDRV_T=int32_t'), drv('', '-DDRV_T=uint8_t'), drv('', '-DDRV_T=Obj')]
    limit = 20000
    assumptions = ['iterators are obtained from the container they are used with', 'a list is not spliced into or merged with itself']

    def scripts(self, tier, rnd, d):
        if d['tag']:
            return []
        return [self.one(rnd, rnd.choice([10, 40, 120]), rnd.choice([3, 10, 60])) for _ in range(360 if tier == 'quick' else 5000)]

    def one(self, rnd, length, big):
        r = rnd.randrange
        hi = rnd.choice([3, 100])
        val = lambda: r(1, hi + 1)
        lst = lambda: [val() for _ in range(r(rnd.choice([2, 5, 20])))]
        s = []
        focus = rnd.sample(range(1, 9), 2)
        focus += [k + 1 if k % 2 else k - 1 for k in focus]
        for _ in range(length):
            k = rnd.choice(focus)
            j = k + 1 if k % 2 else k - 1
            if k <= 4:
                o = rnd.choice(['push', 'push_move', 'emplace', 'push_front', 'push_front_move', 'emplace_front', 'pop', 'pop_front'] * 2 +
                               ['insert', 'insert', 'insert_n', 'insert_l', 'erase', 'erase', 'erase_r', 'resize', 'assign', 'clear', 'splice', 'splice', 'splice_all', 'splice_from', 'merge', 'merge', 'merge10', 'remove',
                                'remove_odd', 'reverse', 'unique', 'sort', 'sort', 'set_front', 'set_back', 'new', 'copy', 'new_copy', 'swap', 'move', 'new_move', 'query', 'query', 'equal'])
            else:
                o = rnd.choice(['push', 'emplace'] * 4 + ['pop'] * 5 + ['query'] * 4 + ['set_front', 'set_back', 'new', 'new_m', 'copy', 'new_copy', 'swap', 'move', 'new_move', 'drain', 'equal'])
            if o in ('assign', 'new', 'new_m'): s.append(L(o, k, lst()))
            elif o == 'insert': s.append(L(o, k, r(big), val()))
            elif o == 'insert_n': s.append(L(o, k, r(big), r(5), val()))
            elif o == 'insert_l': s.append(L(o, k, r(big), lst()))
            elif o == 'erase': s.append(L(o, k, r(big)))
            elif o in ('erase_r', 'resize'): s.append(L(o, k, r(big), r(big)))
            elif o == 'splice': s.append(L(o, k, r(big), j, r(big), r(big)))
            elif o == 'splice_all': s.append(L(o, k, r(big), j))
            elif o == 'splice_from': s.append(L(o, k, r(big), j, r(big)))
            elif o in ('copy', 'new_copy', 'swap', 'move', 'new_move', 'equal', 'merge', 'merge10'):
                if o == 'merge': s += [L('sort', k), L('sort', j)]
                if o == 'merge10': s += [L('assign', x, sorted(lst(), key=lambda v: v // 10)) for x in rnd.sample([k, j], rnd.randrange(3))] + [L('sort', x) for x in (k, j) if rnd.random() < .2]
                s.append(L(o, k, j))
            elif o in ('pop', 'pop_front', 'clear', 'reverse', 'unique', 'sort', 'query', 'drain', 'remove_odd'): s.append(L(o, k))
            else: s.append(L(o, k, val()))
        for k in range(5, 9): s.append(L('drain', k))
        return s

check = C05()
