from vf import *

def mc(name, ks, ln, vals):
    return (name, 'CONSTANTS Conf = "%s" MaxLen = %d Vals = {%s}\nINVARIANTS InOrder\n' % (ks, ln, vals), True, 'Map', ks)
def drv(ks, *fl):
    return dict(name='map', flags=list(fl) + (['-DDRV_KINDS="%s"' % ks] if ks else []), consts='CONSTANTS Conf = "%s" MaxLen = 0 Vals = {}\n' % (ks or 'all'), tag=ks)

class C04(Check):
    prop = 'C04'
    spec = 'Map'
    mcs = [mc('2 maps of keys 1 and 2', 'pp', 2, '1,2'), mc('2 multimaps of at most 2', 'nn', 2, '1,2'), mc('2 descending maps', 'rr', 2, '1,2'),
           mc('2 maps with a coarse ordering', 'qq', 1, '1,2,3'), mc('2 multimaps with a coarse ordering', 'uu', 1, '1,2')]
    mcs_thorough = [mc('2 maps of keys 1 to 3', 'pp', 3, '1,2,3'), mc('2 multimaps of at most 2', 'nn', 2, '1,2,3'), mc('2 descending maps', 'rr', 3, '1,2,3'),
                    mc('2 maps with a coarse ordering', 'qq', 2, '1,2,3'), mc('2 multimaps with a coarse ordering', 'uu', 2, '1,2')]
    drivers = [drv('pp', '-DDRV_K=int32_t', '-DDRV_V=uint8_t'), drv('nn', '-DDRV_K=Str', '-DDRV_V=int32_t'), drv('rr', '-DDRV_K=int32_t', '-DDRV_V=Str'), drv('qq', '-DDRV_K=int32_t', '-DDRV_V=Str'), drv('uu', '-DDRV_K=int16_t', '-DDRV_V=int16_t'),
               drv('', '-DDRV_K=int32_t', '-DDRV_V=int32_t'), drv('', '-DDRV_K=Str', '-DDRV_V=Str'), drv('', '-DDRV_K=uint8_t', '-DDRV_V=uint64_t')]
    limit = 12000
    assumptions = ['the ordering is a strict weak ordering', 'iterators are obtained from the container they are used with', 'arguments do not alias the modified container']

    def scripts(self, tier, rnd, d):
        if d['tag']:
            return []
        return [self.one(rnd, rnd.choice([10, 30, 80]), rnd.choice([4, 12, 100])) for _ in range(360 if tier == 'quick' else 5000)]

    def one(self, rnd, length, big):
        r = rnd.randrange
        val = lambda: r(0, big)
        lst = lambda: [val() for _ in range(r(rnd.choice([2, 6, 20])))]
        s = []
        focus = rnd.sample(range(1, 11), 3)
        plst = lambda: [x for _ in range(r(rnd.choice([2, 6, 20]))) for x in (val(), r(1, 9))]
        for _ in range(length):
            k = rnd.choice(focus)
            j = k + 1 if k % 2 else k - 1
            o = rnd.choice(['insert', 'insert_move', 'emplace', 'emplace_back', 'insert_hint', 'insert_hint_move', 'emplace_hint', 'push_back', 'sub_set', 'sub_set', 'sub_get'] * 2 +
                           ['insert_r', 'insert_l', 'insert_from', 'assign', 'new_r', 'new_l', 'new', 'clear'] + ['erase_k', 'erase', 'look', 'at_get', 'at_set', 'csub_get', 'find_data', 'write', 'query'] * 2 +
                           ['erase_r', 'copy', 'new_copy', 'swap', 'move', 'new_move'])
            if o in ('insert_r', 'insert_l', 'assign', 'new_r', 'new_l'): s.append(L(o, k, plst()))
            elif o == 'insert_from': s.append(L(o, k, j, r(big), r(big)))
            elif o in ('copy', 'new_copy', 'swap', 'move', 'new_move'): s.append(L(o, k, j))
            elif o == 'erase_r': s.append(L(o, k, r(big), r(big)))
            elif o == 'find_data': s.append(L(o, k, r(10), r(big)))
            elif o in ('new', 'clear', 'query'): s.append(L(o, k))
            else: s.append(L(o, k, val(), r(1, 9)))
        return s

check = C04()
