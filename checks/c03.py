from vf import *

def mc(name, ks, ln, vals):
    return (name, 'CONSTANTS Conf = "%s" MaxLen = %d Vals = {%s}\nINVARIANTS InOrder Bounds\n' % (ks, ln, vals), True, 'Sorted', ks)
def drv(ks, *fl):
    return dict(name='sorted', flags=list(fl) + (['-DDRV_KINDS="%s"' % ks] if ks else []), consts='CONSTANTS Conf = "%s" MaxLen = 0 Vals = {}\n' % (ks or 'all'), tag=ks)

class C03(Check):
    prop = 'C03'
    spec = 'Sorted'
    mcs = [mc('2 sets of keys 1 to 3', 'ss', 3, '1,2,3'), mc('2 multisets of at most 3', 'mm', 3, '1,2,3'), mc('2 descending sets', 'tt', 3, '1,2,3'), mc('2 descending multisets', 'nn', 3, '1,2'),
           mc('2 sets with a coarse ordering', 'cc', 2, '1,2,3'), mc('2 multisets with a coarse ordering', 'dd', 2, '1,2,3')]
    mcs_thorough = [mc('2 sets of keys 1 to 4', 'ss', 4, '1,2,3,4'), mc('2 multisets of at most 4', 'mm', 4, '1,2,3'), mc('2 descending sets', 'tt', 4, '1,2,3,4'), mc('2 descending multisets', 'nn', 4, '1,2,3'),
                    mc('2 sets with a coarse ordering', 'cc', 3, '1,2,3,4,7'), mc('2 multisets with a coarse ordering', 'dd', 3, '1,2,3,4')]
    drivers = [drv('ss', '-DDRV_T=int32_t'), drv('mm', '-DDRV_STR'), drv('tt', '-DDRV_STR'), drv('nn', '-DDRV_T=uint64_t'), drv('cc', '-DDRV_T=int32_t'), drv('dd', '-DDRV_STR'),
               drv('', '-DDRV_T=int32_t'), drv('', '-DDRV_T=uint8_t'), drv('', '-DDRV_STR')]
    limit = 12000
    assumptions = ['the ordering is a strict weak ordering', 'iterators are obtained from the container they are used with', 'arguments do not alias the modified container']

    def scripts(self, tier, rnd, d):
        if d['tag']:
            return []
        return [self.one(rnd, rnd.choice([10, 30, 80]), rnd.choice([4, 12, 100])) for _ in range(360 if tier == 'quick' else 5000)]

    def one(self, rnd, length, big):
        r = rnd.randrange
        val = lambda: r(0, big)
        lst = lambda: [val() for _ in range(r(rnd.choice([2, 6, 20])))]
        s = []
        focus = rnd.sample(range(1, 13), 3)
        for _ in range(length):
            k = rnd.choice(focus)
            j = k + 1 if k % 2 else k - 1
            o = rnd.choice(['insert', 'insert_move', 'emplace', 'emplace_back', 'insert_hint', 'insert_hint_move', 'emplace_hint', 'push_back'] * 2 +
                           ['insert_r', 'insert_l', 'insert_from', 'assign', 'new_r', 'new_l', 'new', 'clear'] + ['erase_k', 'erase', 'look', 'look', 'query'] * 2 +
                           ['erase_r', 'copy', 'new_copy', 'swap', 'move', 'new_move', 'equal'])
            if o in ('insert_r', 'insert_l', 'assign', 'new_r', 'new_l'): s.append(L(o, k, lst()))
            elif o == 'insert_from': s.append(L(o, k, j, r(big), r(big)))
            elif o in ('copy', 'new_copy', 'swap', 'move', 'new_move', 'equal'): s.append(L(o, k, j))
            elif o == 'erase_r': s.append(L(o, k, r(big), r(big)))
            elif o in ('new', 'clear', 'query'): s.append(L(o, k))
            else: s.append(L(o, k, val()))
        return s

check = C03()
