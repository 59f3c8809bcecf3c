from vf import *

class S01(Check):
    prop = 'S01'
    spec = 'Str'
    trace_consts = 'CONSTANTS NS = 3 MaxLen = 0 Chars = {}\n'
    mcs = [('2 strings of at most 2 bytes', 'CONSTANTS NS = 2 MaxLen = 2 Chars = {97,98}\nINVARIANT TypeOK\n', True)]
    mcs_thorough = [('2 strings of at most 3 bytes', 'CONSTANTS NS = 2 MaxLen = 3 Chars = {97,98}\nINVARIANT TypeOK\n', True)]
    drivers = [dict(name='str')]
    limit = 12000
    assumptions = ['arguments do not alias the modified string', 'positions given to erase lie within the string', 'iterators are obtained from the string they are used with']

    def scripts(self, tier, rnd, drv):
        n = 1500 if tier == 'quick' else 15000
        return [self.one(rnd, rnd.choice([6, 12, 40]), rnd.choice([3, 8, 40, 130])) for _ in range(n)]

    ops = dict(new='', new_copy='j', new_sub='jnN', new_subd='jn', new_l='l', new_rng='l', new_il='l', new_mem='l', new_fill='nc', new_lit='i', link_lit='i', link_sub='inn', new_move='j', assign_move='j',
               op_move='j', swap='j', assign_s='j', op_s='j', assign_sub='jnN', substr='jnN', assign_l='l', assign_z='l', assign_rng='l', assign_il='l', op_z='l', op_il='l', assign_fill='nc', op_c='c', assign_wc='mw',
               assign_w='W', assign_wz='W', op_wz='W', resize='nc', resize_c='nc', clear='', shrink='', copy_link='', reserve='n', append_l='l', append_z='l', append_rng='l', append_il='l', pe_z='l', pe_il='l',
               append_fill='nc', append_s='j', pe_s='j', append_sub='jnN', append_wc='mw', append_w='W', append_wz='W', pe_wz='W', push='c', pe_c='c', pe_uc='c', push_w='w', pe_w='w', pop='', plus='jj', cplus='lj',
               pluslit='lj', insert_fill='nnc', insert_ifill='nnc', insert_z='nl', insert_l='nl', insert_s='nj', insert_sub='njnN', insert_wc='nmw', insert_w='nWm', insert_itfill='nnc', insert_itc='nc', insert_itn='nlm',
               insert_itz='nlm', insert_il='nl', erase_pos='nN', erase_ipos='nN', erase_all='', erase_from='n', erase_it='nn', erase_rng='nn', eraser='nn', rep_n='nnlm', rep_l='nnlm', rep_z='nnlm', rep_il='nnlm', rep_s='nnj',
               rep_fill='nnmc', rep_ps='nNj', rep_psub='nNjnN', rep_pl='nNl', rep_pz='nNl', rep_pfill='nNmc', write='nc', copy_out='nn', copyto='nn', format='idj', to_string='d', stol='b', query='')

    def one(self, rnd, length, big):
        s = []
        r = rnd.randrange
        byte = lambda: rnd.choice([r(97, 100), r(97, 100), r(32, 127), r(256)])
        wch = lambda: rnd.choice([r(1, 128), r(128, 2048), r(2048, 65536), r(65536, 1 << 21), r(1 << 21, 1 << 26), r(1 << 26, 1 << 31), 127, 128, 2047, 2048, 65535, 65536, (1 << 21) - 1, 1 << 21, (1 << 26) - 1, 1 << 26])
        gen = {'j': lambda: r(1, 4), 'n': lambda: r(big), 'N': lambda: 1000000 if rnd.random() < .15 else r(big), 'm': lambda: r(4), 'c': byte, 'l': lambda: [byte() for _ in range(r(rnd.choice([2, 5, big + 1])))], 'w': wch, 'W': lambda: [wch() for _ in range(r(5))],
               'i': lambda: r(1, 6), 'd': lambda: rnd.choice([0, 1, -1, r(-1000, 1000), r(-2**31, 2**31)]), 'b': lambda: r(2)}
        names = list(self.ops) + ['query', 'stol', 'new_lit', 'link_lit', 'shrink', 'rep_n', 'rep_pz', 'format', 'push', 'pop', 'erase_pos', 'insert_itn']
        for _ in range(length):
            o = rnd.choice(names)
            k = r(1, 4)
            if o == 'stol':
                s.append(L('assign_l', k, [ord(c) for c in rnd.choice(['', ' ', '-']) + rnd.choice(['12', '007', '0x1f', 'ff', '+9', '- 1', 'x', '0x', '0xg', str(r(-99999, 99999))]) + rnd.choice(['', ' ', 'z', '.5'])]))
            if o == 'to_string':
                s.append(L(o, k, rnd.choice([0, -1, 7, r(-2**31 + 1, 2**31)])))
                continue
            if o == 'format' and rnd.random() < .1: s.append(L(o, k, 3, -2**31 + 1, r(1, 4)))
            s.append(L(o, k, *[gen[c]() for c in self.ops[o]]))
        return s

check = S01()
