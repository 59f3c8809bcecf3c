from vf import *

def cst(nr, nq, ln='0', vals='0', modes='0'):
    return 'CONSTANTS NR = %s NQ = %s MaxLen = %s Vals = {%s} Modes = {%s}\n' % (nr, nq, ln, vals, modes)
INV = 'INVARIANT TopIsGreatest RootIsGreatest\n'
def drv(nr, nq, t, tag=''):
    return dict(name='heap', flags=['-DDRV_T=' + t, '-DDRV_NR=%d' % nr, '-DDRV_NQ=%d' % nq], consts=cst(nr, nq), tag=tag)

class C06(Check):
    prop = 'C06'
    spec = 'Heap'
    mcs = [('ranges of at most 4, three orderings', cst(1, 0, 4, '1,2,11', '0,1,2') + INV, True, 'Heap', 'r'),
           ('2 priority queues of at most 3', cst(0, 2, 3, '1,2,11', '0,1,2') + INV, True, 'Heap', 'q')]
    mcs_thorough = [('ranges of at most 5, three orderings', cst(1, 0, 5, '1,2,11', '0,1,2') + INV, True, 'Heap', 'r'),
           ('2 priority queues of at most 4', cst(0, 2, 4, '1,2,11', '0,1,2') + INV, True, 'Heap', 'q')]
    drivers = [drv(1, 0, 'int32_t', 'r'), drv(1, 0, 'Obj', 'r'), drv(0, 2, 'uint8_t', 'q'), drv(2, 3, 'int32_t'), drv(2, 3, 'Obj')]
    limit = 20000
    assumptions = ['push_heap, pop_heap and sort_heap are called on heaps of the given ordering']

    def scripts(self, tier, rnd, d):
        if d['tag']:
            return []
        r = rnd.randrange
        out = []
        for _ in range(400 if tier == 'quick' else 6000):
            hi = rnd.choice([3, 30, 200])
            val = lambda: r(1, hi + 1)
            lst = lambda: [val() for _ in range(r(rnd.choice([3, 9, 40])))]
            s = []
            m = r(3)
            for _ in range(rnd.choice([10, 40, 100])):
                if rnd.random() < .4:
                    k = 1
                    o = rnd.choice(['load', 'make', 'push', 'push', 'pop', 'pop', 'pop_back', 'sort', 'is'])
                    if r(10) == 0: m = r(3)
                    if o == 'load':
                        s += [L(o, k, lst()), L('is', k, r(3))]
                        if r(2): s.append(L('make', k, m, []))
                    elif o == 'push': s.append(L(o, k, m, val(), []))
                    elif o == 'pop':
                        s += [L(o, k, m, []), L('pop_back', k)]
                    elif o == 'pop_back': s.append(L(o, k))
                    elif o == 'sort': s += [L(o, k, m, []), L('make', k, m, [])]
                    else: s.append(L(o, k, m, []) if o != 'is' else L(o, k, r(3)))
                else:
                    k = r(1, 4)
                    o = rnd.choice(['qpush', 'qpush', 'qpush', 'qemplace', 'qpop', 'qpop', 'qpop', 'qnew', 'qnew_c', 'qnew_m', 'qnew_cm', 'qswap', 'qmove', 'qnew_move', 'qdrain'])
                    if o in ('qpush', 'qemplace'): s.append(L(o, k, val()))
                    elif o == 'qpop': s.append(L(o, k))
                    elif o in ('qswap', 'qmove', 'qnew_move'): s.append(L(o, k, r(1, 4)))
                    elif o == 'qdrain': s.append(L(o, k, []))
                    else: s.append(L(o, k, r(3), lst()))
            s += [L('qdrain', k, []) for k in (1, 2, 3)]
            out.append(s)
        # ranges large enough for several levels
        for n in range(0, 65):
            for m in range(3):
                v = [r(1, 60) for _ in range(n)]
                out.append([L('load', 1, v), L('is', 1, m), L('make', 1, m, []), L('is', 1, m), L('push', 1, m, r(1, 60), []), L('pop', 1, m, []), L('pop_back', 1), L('is', 1, m), L('sort', 1, m, []), L('is', 1, 1 if m == 0 else 0)])
        return out

check = C06()
