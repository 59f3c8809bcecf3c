from vf import *

CT = dict(i8='int8_t', u8='uint8_t', i16='int16_t', u16='uint16_t', i32='int32_t', u32='uint32_t', f='float', d='double')
OTHER = dict(i8='int16_t', u8='uint32_t', i16='uint16_t', u16='int16_t', i32='int64_t', u32='int32_t', f='int32_t', d='int32_t')
def cst(kind, n, nt, nx=1, ny=1, mx=0):
    if nx == 1: ny = n
    return 'CONSTANTS Kind = "%s" N = %d NX = %d NY = %d NT = %d MaxIn = %d\n' % ('f' if kind == 'd' else kind, n, nx, ny, nt, mx)
INV = 'INVARIANT Typed AddSub Transposes\n'
def mc(kind, n, nt, nx=1, ny=1, mx=0):
    return ('%d of %d %s%s' % (nt, n, kind, ' as %dx%d matrices' % (nx, ny) if nx > 1 else ''), cst(kind, n, nt, nx, ny, mx) + INV, True, 'Fixed', '%s-%d-%d' % (kind, n, nx))
def drv(kind, n, nt=3, nx=1, ny=1, form='', tag=''):
    fl = ['-DDRV_T=' + CT[kind], '-DDRV_T2=' + OTHER[kind], '-DDRV_N=%d' % n, '-DDRV_NX=%d' % nx, '-DDRV_NY=%d' % ny, '-DDRV_NT=%d' % nt]
    if form: fl.append('-DDRV_' + form)
    if kind in 'fd': fl.append('-DDRV_FLOAT')
    return dict(name='fixed', flags=fl, consts=cst(kind, n, nt, nx, ny), tag=tag, kind=kind, n=n, nx=nx, ny=ny, nt=nt)

class C08(Check):
    prop = 'C08'
    spec = 'Fixed'
    mcs = [mc('u8', 2, 2), mc('i32', 2, 2), mc('f', 4, 1, 2, 2)]
    mcs_thorough = [mc(k, 2, 2) for k in ('u8', 'i8', 'i16', 'u16', 'i32', 'u32', 'f')] + [mc('i8', 3, 2), mc('f', 4, 1, 2, 2), mc('i32', 4, 1, 2, 2)]
    drivers = [drv('u8', 2, 2, tag='u8-2-1'), drv('i32', 2, 2, tag='i32-2-1'), drv('f', 4, 1, 2, 2, 'MATRIX', 'f-4-2')]
    more = [drv('i16', 2, 2, tag='i16-2-1'), drv('i8', 2, 2, tag='i8-2-1'), drv('u16', 2, 2, tag='u16-2-1'), drv('u32', 2, 2, tag='u32-2-1'), drv('f', 2, 2, tag='f-2-1'), drv('i8', 3, 2, tag='i8-3-1'), drv('i32', 4, 1, 2, 2, 'MATRIX', 'i32-4-2')]
    rand = ([drv(k, n) for k, n in [('i8', 8), ('u8', 8), ('i16', 4), ('u16', 4), ('i16', 2), ('u16', 2), ('i32', 4), ('u32', 4), ('i32', 2), ('u32', 2), ('f', 4), ('f', 2), ('d', 2), ('i32', 7), ('u8', 5), ('i8', 16), ('u32', 16), ('f', 16), ('i32', 1)]] +
            [drv('i32', 4, form='ARRAY'), drv('u8', 5, form='ARRAY'), drv('f', 3, form='ARRAY')] +
            [drv('f', 16, 3, 4, 4, 'MATRIX'), drv('i32', 16, 3, 4, 4, 'MATRIX'), drv('i32', 9, 3, 3, 3, 'MATRIX'), drv('i16', 6, 2, 3, 2, 'MATRIX'), drv('d', 16, 2, 4, 4, 'MATRIX')])
    drivers = drivers + rand
    limit = 4000
    assumptions = ['floating point elements are whole numbers small enough to be exact', 'no division by zero or of the most negative 32-bit integer', 'shift counts are below 8 and shifted values not negative', 'averages are checked for elements narrower than 32 bits, saturating subtraction for unsigned ones']

    def scripts(self, tier, rnd, d):
        if d['tag']:
            return []
        r = rnd.randrange
        out = []
        k, n, nt, nx, ny = d['kind'], d['n'], d['nt'], d['nx'], d['ny']
        bits = dict(i8=8, u8=8, i16=16, u16=16, i32=32, u32=32).get(k, 0)
        edge = {'i8': [0, 1, -1, 2, 127, -128, -127, 100, 64], 'u8': [0, 1, 2, 127, 128, 255, 254, 200], 'i16': [0, 1, -1, 255, 256, 32767, -32768], 'u16': [0, 1, 255, 256, 32767, 32768, 65535],
                'i32': [0, 1, -1, 65535, 65536, 2147483647, -2147483648, 2147483646], 'u32': [0, 1, -1, 65535, 65536, 2147483647, -2147483648]}.get(k, [0, 1, -1, 2, 3, 12, -8, 100])
        def val():
            if r(2) or not bits: return rnd.choice(edge) if r(3) else r(-50, 50)  if k not in ('u8', 'u16') else r(0, 50)
            v = rnd.getrandbits(bits)
            return v if k in ('u8', 'u16') or v < 1 << (bits - 1) else v - (1 << bits)
        lst = lambda m: [val() for _ in range(m)]
        T = lambda: r(1, nt + 1)
        for _ in range(60 if tier == 'quick' else 1500):
            s = [L('set', i + 1, lst(n)) for i in range(nt)]
            for _ in range(40):
                o = rnd.choice(['set', 'from_ptr', 'init', 'spread', 'zero', 'fill', 'copy', 'new_copy', 'convert', 'swap', 'put', 'compare', 'compare', 'query'] +
                               ['add_to', 'sub_to', 'mul_to', 'div_to', 'add', 'sub', 'mul', 'div', 'add_v', 'sub_v', 'mul_v', 'div_v', 'add_tov', 'sub_tov', 'mul_tov', 'div_tov', 'add_l', 'sub_l', 'mul_l', 'div_l'] +
                               ['p_add', 'p_sub', 'p_mul', 'p_div', 'p_and', 'p_or', 'p_xor', 'p_min', 'p_max', 'p_avg', 'p_subs', 'p_shl', 'p_shr'] +
                               (['row', 'column', 'transpose', 'identity', 'matmul', 'matmul', 'vecmat', 'vecmat'] * 3 if nx > 1 else []))
                if o in ('set', 'from_ptr'): s.append(L(o, T(), lst(n)))
                elif o == 'init' or o.endswith('_l'): s.append(L(o, T(), lst(rnd.choice([n, n, r(n + 1)]))))
                elif o == 'spread': s.append(L(o, T(), lst(r(1, min(n, 4) + 1))))
                elif o in ('zero', 'query', 'transpose', 'identity'): s.append(L(o, T()))
                elif o == 'fill' or o.endswith('_tov'): s.append(L(o, T(), val()))
                elif o == 'put': s.append(L(o, T(), r(1, n + 1), val()))
                elif o.endswith('_v'): s.append(L(o, T(), T(), val()))
                elif o in ('row', 'column'): s.append(L(o, T(), r(8)))
                elif o == 'vecmat': s.append(L(o, T(), lst(ny)))
                elif o in ('add', 'sub', 'mul', 'div', 'matmul'): s.append(L(o, T(), T(), T()))
                elif o in ('p_shl', 'p_shr'):
                    j = T()
                    s += [L('set', j, [r(8) for _ in range(n)]), L(o, T(), j)]
                elif o in ('div_to', 'p_div'):
                    i, j = T(), T()
                    q = [rnd.choice([1, 2, 3, 5, -1 if k[0] != 'u' else 1]) for _ in range(n)]
                    if i != j: s += [L('set', j, q)] + ([L('mul_to', i, j)] if k in 'fd' else [])
                    s.append(L(o, i, j))
                else: s.append(L(o, T(), T()))
                # whole floats stay small
                if k in 'fd' and r(2): s.append(L('set', T(), lst(n)))
            out.append(s)
        return out

    def __init__(self):
        import sys
        if 'thorough' in sys.argv: self.drivers = self.drivers + self.more

check = C08()
