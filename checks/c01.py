from vf import *

class C01(Check):
    prop = 'C01'
    spec = 'Vec'
    trace_consts = 'CONSTANTS NV = 3 MemLen = 8 MaxLen = 0 Vals = {}\n'
    mcs = [('2 vectors, at most 2 elements, array of 2', 'CONSTANTS NV = 2 MemLen = 1 MaxLen = 2 Vals = {1,2}\nINVARIANT TypeOK\nPROPERTY MemOnlyByWrite\n', True)]
    drivers = [dict(name='vec', flags=['-DDRV_T=int32_t']), dict(name='vec', flags=['-DDRV_T=uint8_t']),
               dict(name='vec', flags=['-DDRV_T=uint64_t']), dict(name='vec', flags=['-DDRV_T=Obj', '-DDRV_OBJ']),
               dict(name='vec', flags=['-DDRV_T=P12', '-DDRV_P12'])]
    assumptions = ['arguments do not alias the modified vector', 'iterators are obtained from the vector they are used with']

    def adapt(self, seg, drv):
        if drv['flags'][0] in ('-DDRV_T=int32_t', '-DDRV_T=Obj'):
            return seg
        return None

    def scripts(self, tier, rnd, drv):
        n = 400 if tier == 'quick' else 1500
        out = []
        for _ in range(n):
            out.append(self.one(rnd, rnd.choice([6, 12, 40]), rnd.choice([3, 8, 40, 130])))
        return out

    def one(self, rnd, length, big):
        s = []
        r = rnd.randrange
        val = lambda: r(1, 100)
        lst = lambda: [val() for _ in range(rnd.choice([0, 1, 2, 3, 5, 9]))]
        for _ in range(length):
            k, j = r(1, 4), r(1, 4)
            o = rnd.choice(['push'] * 5 + ['push_move', 'emplace_back', 'insert', 'insert', 'insert_move', 'emplace', 'insert_n', 'insert_n', 'insert_l', 'insert_r', 'insert_r',
                            'erase', 'erase', 'erase_n', 'erase_r', 'pop', 'resize', 'resize_v', 'new_n', 'new_nv', 'new_range', 'new_copy', 'new_list', 'new_move', 'copy', 'copy',
                            'assign_r', 'assign_n', 'move', 'swap', 'clear', 'dealloc', 'reserve', 'reserve', 'shrink', 'shrink', 'copy_link', 'link', 'link', 'unlink', 'manage',
                            'write', 'write', 'mem_set', 'query', 'query', 'equal'])
            if o in ('push', 'push_move', 'emplace_back'): s.append(L(o, k, val()))
            elif o in ('insert', 'insert_move', 'emplace', 'write'): s.append(L(o, k, r(big), val()))
            elif o == 'insert_n': s.append(L(o, k, r(big), r(rnd.choice([4, big])), val()))
            elif o == 'insert_l': s.append(L(o, k, r(big), lst()))
            elif o == 'insert_r': s.append(L(o, k, r(big), j, r(big), r(big)))
            elif o in ('erase', 'resize', 'new_n', 'reserve'): s.append(L(o, k, r(big)))
            elif o in ('erase_n', 'erase_r'): s.append(L(o, k, r(big), r(big)))
            elif o in ('resize_v', 'new_nv', 'assign_n'): s.append(L(o, k, r(big), val()))
            elif o in ('new_range', 'assign_r'): s.append(L(o, k, j, r(big), r(big)))
            elif o in ('new_copy', 'new_move', 'copy', 'move', 'swap', 'equal'): s.append(L(o, k, j))
            elif o in ('new_list', 'manage'): s.append(L(o, k, lst()))
            elif o == 'link': s.append(L(o, k, r(9), r(9)))
            elif o == 'mem_set': s.append(L(o, r(8), val()))
            else: s.append(L(o, k))
        return s

check = C01()
