from vf import *
import importlib
Algo = importlib.import_module('a01').Algo

class A02(Algo):
    prop = 'A02'
    part = 2
    sizes = (3, 2)
    count = (600, 16000)
    assumptions = ['what stands behind the new end after remove and unique, and the order partition and random_shuffle leave, come as a witness from the run and are checked to be allowed',
                   'the predicates given to unique are equivalences; the value rotate returns is not constrained']
    def calls(self, rnd, s, tags, hi, v, k, m, i, j, e):
        r = rnd.randrange
        h = [m, k + 1, i, j]
        n = j - i
        z = n + r(6); d = r(z - n + 1)
        o = rnd.choice('copy copy copy_backward copy_if reverse_copy rotate_copy transform transform2 replace_copy replace_copy_if remove_copy remove_copy_if remove_copy_at unique_copy fill_n generate_n shift shift_right fill generate transform_in replace replace_if remove remove_if unique reverse rotate crotate stable_partition partition shuffle swap_ranges iter_swap'.split())
        if o in ('copy', 'copy_backward', 'reverse_copy'): s.append(L(o, *h, z, d))
        elif o in ('copy_if', 'transform', 'remove_copy_if', 'unique_copy'): s.append(L(o, *h, z, d, r(3)))
        elif o == 'rotate_copy': s.append(L(o, *h, z, d, r(n + 1)))
        elif o == 'transform2':
            if len(v[1 - k]) >= n: s.append(L(o, *h, z, d, r(3), r(len(v[1 - k]) - n + 1)))
        elif o == 'replace_copy': s.append(L(o, *h, z, d, e(), e()))
        elif o == 'replace_copy_if': s.append(L(o, *h, z, d, r(3), e()))
        elif o == 'remove_copy': s.append(L(o, *h, z, d, e()))
        elif o == 'remove_copy_at':
            if m == 0: s.append(L(o, *h, z, d, sorted(rnd.sample(range(n), r(min(n, 6) + 1)))))
        elif o in ('fill_n', 'generate_n'): s.append(L(o, m, z, d, n, e()))
        elif o == 'shift': s.append(L(o, 0, k + 1, i, j, r(i + 1)))
        elif o == 'shift_right': s.append(L(o, 0, k + 1, i, j, i + r(len(v[k]) - j + 1)))
        elif o in ('fill', 'generate'): s.append(L(o, *h, e()))
        elif o in ('transform_in', 'stable_partition'): s.append(L(o, *h, r(3)))
        elif o == 'partition': s.append(L(o, *h, r(3), []))
        elif o == 'shuffle': s.append(L(o, *h, []))
        elif o == 'replace': s.append(L(o, *h, e(), e()))
        elif o == 'replace_if': s.append(L(o, *h, r(3), e()))
        elif o == 'remove': s.append(L(o, *h, e(), []))
        elif o in ('remove_if', 'unique'): s.append(L(o, *h, r(3), []))
        elif o == 'reverse': s.append(L(o, *h))
        elif o == 'rotate': s.append(L(o, *h, r(n + 1)))
        elif o == 'crotate':
            x = len(v[k])
            if x: s.append(L(o, 1, k + 1, 0, x, rnd.randrange(1 - x, x)))
        elif o == 'swap_ranges':
            if len(v[1 - k]) >= n: s.append(L(o, 0, k + 1, i, j, r(len(v[1 - k]) - n + 1)))
        elif n: s.append(L(o, *h, r(n), r(n)))

check = A02()
