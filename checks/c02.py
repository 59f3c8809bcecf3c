from vf import *

ALL = 'vvllssmmppnnuukk'
def kinds(s):
    return '"%s"' % (s if len(s) == 2 else 'all')
def mc(name, ks, ln, tag):
    return (name, 'CONSTANTS Conf = %s MaxLen = %d Vals = {1,2}\nINVARIANT Sorted\n' % (kinds(ks), ln), True, 'Life', tag)
def drv(ks, tag):
    return dict(name='life', flags=['-DDRV_KINDS="%s"' % ks], consts='CONSTANTS Conf = %s MaxLen = 0 Vals = {}\n' % kinds(ks), tag=tag)

class C02(Check):
    prop = 'C02'
    spec = 'Life'
    mc_rest = "/\\ alive' = alive"
    mcs = [mc('2 vectors of at most 3', 'vv', 3, 'vv'), mc('2 lists of at most 2', 'll', 2, 'll'), mc('2 sets of at most 2', 'ss', 2, 'ss'), mc('2 multisets of at most 2', 'mm', 2, 'mm'),
           mc('map and multimap', 'pn', 2, 'pn'), mc('2 vectors of unique_ptr, 2 stacks', 'uk', 3, 'uk')]
    mcs_thorough = [mc('2 vectors of at most 4', 'vv', 4, 'vv'), mc('2 lists of at most 3', 'll', 3, 'll'), mc('2 sets of at most 2', 'ss', 2, 'ss'), mc('2 multisets of at most 4', 'mm', 4, 'mm'),
           mc('map and multimap', 'pn', 3, 'pn'), mc('vectors of unique_ptr, stack', 'uk', 4, 'uk')]
    drivers = [drv(k, k) for k in ('vv', 'll', 'ss', 'mm', 'pn', 'uk')] + [drv(ALL, '')]
    limit = 12000
    assumptions = ['element constructors do not throw', 'element types keep no pointers into themselves, as uvector.h requires', 'arguments do not alias the modified container']

    def scripts(self, tier, rnd, d):
        if d['tag']:
            return []
        return [self.one(rnd, rnd.choice([10, 30, 60]), rnd.choice([2, 4, 12, 30])) for _ in range(600 if tier == 'quick' else 8000)]

    def one(self, rnd, length, big):
        r = rnd.randrange
        val = lambda: r(1, rnd.choice([4, 100]))
        lst = lambda: [val() for _ in range(r(5))]
        n = len(ALL)
        s = []
        focus = rnd.sample(range(1, n + 1), 4)
        for _ in range(length):
            k = rnd.choice(focus)
            q = ALL[k - 1]
            j = k + 1 if k % 2 else k - 1
            anyop = [('erase_n', r(big), rnd.choice([1, 1, r(big)])), ('clear',), ('new',), ('copy', j), ('new_copy', j), ('swap', j), ('move', j), ('new_move', j), ('copy', k)]
            if q in 'vlu':
                ops = [('push', val()), ('push_move', val()), ('emplace_back', val()), ('insert', r(big), val()), ('insert_move', r(big), val()), ('emplace', r(big), val()), ('pop',),
                       ('erase_n', r(big), 1), ('write', r(big), val()), ('reserve', r(2 * big)), ('shrink',), ('dealloc',)]
                if q != 'u':
                    ops += [('insert_n', r(big), r(4), val()), ('insert_l', r(big), lst()), ('resize', r(big)), ('resize_v', r(big), val()), ('assign_n', r(big), val()), ('assign_l', lst())]
                if q == 'l':
                    ops += [('push_front', val()), ('pop_front',)] * 2
            elif q in 'sm':
                ops = [('put', val()), ('put_move', val()), ('put_l', lst()), ('erase_k', val())] * 2
            elif q in 'pn':
                ops = [('putp', val(), val()), ('putp_move', val(), val()), ('sub', val(), val()), ('erase_k', val())] * 2
            else:
                ops = [('push', val()), ('push_move', val()), ('pop',)] * 4
            o = rnd.choice(ops * 2 + anyop)
            s.append(L(o[0], k, *o[1:]))
        return s

check = C02()
