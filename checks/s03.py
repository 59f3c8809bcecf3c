from vf import *

class S03(Check):
    prop = 'S03'
    spec = 'Utf8'
    trace_consts = 'CONSTANTS NS = 2 MaxLen = 0 Chars = {}\n'
    mcs = [('1 string of at most 2 characters at the limits of each length', 'CONSTANTS NS = 1 MaxLen = 2 Chars = {1,3,4,5,6,7,8,9,10,11,12,13,14,15}\nINVARIANT RoundTrip Decodes\n', True)]
    mcs_thorough = [('1 string of at most 3 characters at the limits of each length', 'CONSTANTS NS = 1 MaxLen = 3 Chars = {1,3,4,5,6,7,8,9,10,11,12,13,14,15}\nINVARIANT Decodes\n', True),
                    ('2 strings of at most 2 characters', 'CONSTANTS NS = 2 MaxLen = 2 Chars = {1,3,4,7,8,14}\nINVARIANT RoundTrip Decodes\n', True)]
    drivers = [dict(name='utf8')]
    limit = 12000
    assumptions = ['positions given for insertion and erasure are those of characters; the text holds only encoded characters (malformed text is outside the property)']

    def adapt(self, seg, drv):
        # the other string of the implementation exists but is not used
        return seg

    def scripts(self, tier, rnd, drv):
        segs = [[L('seqbytes', c) for c in range(256)]]
        # every length boundary and every bit, alone
        pts = sorted({max(0, min(2**32 - 1, b + d)) for b in [0, 128, 2048, 65536, 1 << 21, 1 << 26, 1 << 31, 2**32 - 1] + [1 << i for i in range(32)] for d in range(-2, 3)})
        for i in range(0, len(pts), 16):
            s = []
            for w in pts[i:i + 16]:
                h = [w >> 16, w & 65535]
                s += [L(o, 1, h) for o in ('assign', 'push', 'out_ptr')] + [L('read', 1), L('bytes', 1), L('length', 1), L('dist', 1, 0, 1), L('out_back', 2, h), L('read_wide', 2)]
            segs.append(s)
        return segs + [self.one(rnd) for _ in range(1000 if tier == 'quick' else 15000)]

    def one(self, rnd):
        r = rnd.randrange
        top = rnd.choice([7, 11, 16, 21, 31, 32])
        def w():
            b = r(1, top + 1)
            v = rnd.choice([r(1 << b), r(1 << b), (1 << b) - 1, 1 << (b - 1), 0 if rnd.random() < .2 else 65])
            return [v >> 16, v & 65535]
        big = rnd.choice([3, 8, 40])
        lst = lambda: [x for _ in range(r(big)) for x in w()]
        s = []
        for _ in range(rnd.choice([8, 20, 40])):
            k = r(1, 3)
            o = rnd.choice(['assign', 'assign_z', 'op_z', 'assign_n', 'out_back', 'copy_back', 'out_ptr', 'out_stream', 'append', 'append_z', 'pe_z', 'append_n', 'push', 'pe', 'insert', 'insert', 'insert_n', 'erase', 'copy', 'app',
                            'read', 'read_post', 'read_u', 'read_stream', 'read_wide', 'length', 'wiat', 'wiat', 'step', 'step', 'dist', 'dist', 'bytes'])
            if o in ('assign', 'assign_z', 'op_z', 'out_back', 'copy_back', 'out_ptr', 'out_stream', 'append', 'append_z', 'pe_z'): s.append(L(o, k, lst()))
            elif o in ('assign_n', 'append_n'): s.append(L(o, k, w(), r(6)))
            elif o in ('push', 'pe'): s.append(L(o, k, w()))
            elif o == 'insert': s.append(L(o, k, r(big), lst(), r(4)))
            elif o == 'insert_n': s.append(L(o, k, r(big), w(), r(5)))
            elif o in ('erase', 'step', 'dist'): s.append(L(o, k, r(2 * big), r(2 * big)))
            elif o in ('copy', 'app'): s.append(L(o, k, r(1, 3)))
            elif o == 'wiat': s.append(L(o, k, r(2 * big)))
            else: s.append(L(o, k))
            if o == 'app' and rnd.random() < .8: s.append(L('erase', k, r(big), r(3 * big)))
        return s + [L('read', 1), L('read', 2)]

check = S03()
