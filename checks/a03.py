from vf import *
import importlib
Algo = importlib.import_module('a01').Algo

class A03(Algo):
    prop = 'A03'
    part = 3
    sizes = (3, 2)
    count = (600, 16000)
    assumptions = ['the order in which sort, partial_sort and nth_element leave elements that compare equal, and which of the equal ones the set differences keep, come as a witness from the run and are checked to be allowed',
                   'orderings are strict weak orderings, and the ranges given to the operations on sorted ranges are sorted by the ordering given']
    def calls(self, rnd, s, tags, hi, v, k, m, i, j, e):
        r = rnd.randrange
        n = j - i
        c = r(3)
        o = rnd.choice('sort sort stable_sort partial_sort nth sort_copy is_sorted bounds bounds merge union intersection difference symmetric includes inplace_merge next prev'.split())
        if o in ('merge', 'inplace_merge') or (o == 'bounds' and m % 2): c = 0
        h = [m, k + 1, i, j]
        lt = self.key(tags, c)
        if o in ('bounds', 'merge', 'union', 'intersection', 'difference', 'symmetric', 'includes', 'inplace_merge') or (o == 'is_sorted' and r(2)):
            def put(x, q): v[x] = q; s.append(L('set', x + 1, q))
            def order(q, f): return sorted(q, key=f, reverse=False)
            q = order(v[k], lt)
            if m == 2: q.reverse()
            if o == 'is_sorted' and q and r(2): q[r(len(q))] = e()
            if o == 'inplace_merge':
                x = r(n + 1)
                q = v[k][i:j]
                q = order(q[:x], lt) + order(q[x:], lt)
                if m == 2: q.reverse()
                q = v[k][:i] + q + v[k][j:]
            put(k, q)
            if o == 'bounds': return s.append(L(o, *h, c, e()))
            if o == 'is_sorted': return s.append(L(o, *h, c))
            if o == 'inplace_merge': return s.append(L(o, *h, 0, x))
            w = v[1 - k]
            if r(3) == 0: w = rnd.sample(v[k], r(len(v[k]) + 1)) + w[:r(3)]
            w = order(w, lt)
            put(1 - k, w)
            p, t = rnd.choice([(0, len(w)), sorted((r(len(w) + 1), r(len(w) + 1)))])
            z = n + t - p + r(4); d = r(z - (n + t - p) + 1)
            return s.append(L(o, *h, c, z, d, p, t, []))
        if o == 'sort': s.append(L(o, *h, c, []))
        elif o in ('stable_sort', 'is_sorted'): s.append(L(o, *h, c))
        elif o in ('partial_sort', 'nth'): s.append(L(o, *h, c, r(n + 1), []))
        elif o == 'sort_copy':
            x = r(n + 3); z = x + r(4)
            s.append(L(o, *h, c, z, r(z - x + 1), x, []))
        else:
            if o == 'prev' and c == 2: c = r(2)
            for _ in range(r(1, 6)): s.append(L(o, *h, c))

check = A03()
