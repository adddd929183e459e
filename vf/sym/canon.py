"""Rewriting, canonical forms, equality and numeric evaluation of symbolic arrays."""
import hashlib
from fractions import Fraction
import math
import zlib
import numpy as np

from .ctx import ctx, Poly, mk, P, Unsupported, lower
from . import arr as A
from .arr import (Term, Coef, CONE, SymArray, Axis, Leaf, ZERO, ONE, pdim, fdim, spec_labels, respec,
                  new_label, common, conform_multi, nfactors)


# ---------------------------------------------------------------------------
# rewriting
# ---------------------------------------------------------------------------

def uses(t):
    """label -> list of (node, slot, position); output occurrences as ('out', axis)"""
    u = {}
    for n, (l, c, sl) in enumerate(t.nodes):
        for k, (ls, st) in enumerate(sl):
            for p, x in enumerate(ls):
                u.setdefault(x, []).append((n, k, p))
    for i, sp in enumerate(t.out):
        for x in spec_labels(sp):
            u.setdefault(x, []).append(('out', i, 0))
    return u


def drop_units(t):
    """Labels of dimension one vanish; coefficients and dimensions normalized"""
    dims = {k: P(v) for k, v in t.dims.items()}
    unit = set(k for k, v in dims.items() if v == ONE)
    nodes = []
    for l, c, sl in t.nodes:
        nodes.append((l, c, tuple((tuple(x for x in ls if x not in unit), P(st)) for ls, st in sl)))
    return Term(t.coef.norm(), nodes, t.out, {k: v for k, v in dims.items()
                                              if k not in unit or any(k in spec_labels(s) for s in t.out)})


def full(leaf, k, slot, dims):
    ls, st = slot
    if P(st) != ZERO:
        return False
    p = ONE
    for x in ls:
        p = p * dims[x]
    return P(p) == P(leaf.dims[k])


def rule_delta(t):
    for n, (l, c, sl) in enumerate(t.nodes):
        if l.define is None or l.define[0] != 'delta':
            continue
        (la, sa), (lb, sb) = sl
        sa, sb = P(sa), P(sb)
        rest = t.nodes[:n] + t.nodes[n + 1:]
        da = [t.dims[x] for x in la]
        db = [t.dims[x] for x in lb]
        pa, pb = ONE, ONE
        for x in da:
            pa = pa * x
        for x in db:
            pb = pb * x
        c = ctx()
        if c.entails('<=', sa + pa - sb) or c.entails('<=', sb + pb - sa):
            return []           # disjoint windows
        if sa != sb or pa != pb:
            # one side is the entire index: it is the window of the other side
            outl = set(x for sp in t.out for x in spec_labels(sp))
            for X, sX, Y, sY in ((la, sa, lb, sb), (lb, sb, la, sa)):
                if len(X) == 1 and sX == ZERO and X[0] not in outl and X[0] not in Y and \
                        c.norm(P(t.dims[X[0]])) == c.norm(P(l.dims[0])):
                    try:
                        return [A.substitute(Term(t.coef, rest, t.out, t.dims), X[0], Y, sY, {})]
                    except Unsupported:
                        pass
            continue
        if da == db:
            m = {}
            for x, y in zip(la, lb):
                x, y = A.res(m, x), A.res(m, y)
                if x != y:
                    m[y] = x
            u = Term(t.coef, rest, t.out, t.dims).relabel({k: A.res(m, k) for k in m})
            return [u]
        # one side composite, other side one internal label
        outl = set(x for sp in t.out for x in spec_labels(sp))
        for X, Y in ((la, lb), (lb, la)):
            if len(X) == 1 and X[0] not in outl and X[0] not in Y:
                u = A.substitute(Term(t.coef, rest, t.out, t.dims), X[0], Y, ZERO, {})
                return [u]
    return None


def rule_delta2(t):
    """sum_x delta(a, x) delta(x, b) = delta(a, b) for composite indices x"""
    ds = [n for n, (l, c, sl) in enumerate(t.nodes) if l.define is not None and l.define[0] == 'delta']
    if len(ds) < 2:
        return None
    u = uses(t)
    for i in ds:
        for j in ds:
            if j == i:
                continue
            for p in (0, 1):
                for q in (0, 1):
                    X, Y = t.nodes[i][2][p], t.nodes[j][2][q]
                    if X != Y or not full(t.nodes[i][0], p, X, t.dims) or len(set(X[0])) != len(X[0]):
                        continue
                    if any(sorted(o[:2] for o in u[x] if o[0] != 'out') != sorted([(i, p), (j, q)]) or
                           any(o[0] == 'out' for o in u[x]) for x in X[0]):
                        continue
                    rest = [x for k, x in enumerate(t.nodes) if k not in (i, j)]
                    rest.append((t.nodes[i][0], False, (t.nodes[i][2][1 - p], t.nodes[j][2][1 - q])))
                    return [Term(t.coef, rest, t.out, {k: v for k, v in t.dims.items() if k not in X[0]})]
    return None


def rule_phase(t):
    """phase * conj(phase) = 1 for the same index"""
    ps = [n for n, (l, c, sl) in enumerate(t.nodes) if l.define is not None and l.define[0] == 'phase']
    for i in ps:
        for j in ps:
            (li, ci, si), (lj, cj, sj) = t.nodes[i], t.nodes[j]
            if j > i and li.key == lj.key and si == sj and (ci != cj or li.real):
                return [Term(t.coef, [x for k, x in enumerate(t.nodes) if k not in (i, j)], t.out, t.dims)]
    return None


def phase(d, x):
    """d / abs(x) for d = x (entries different from zero)"""
    if array_key(d) != array_key(x):
        raise Unsupported('division by abs of another array')
    c = ctx()
    c.trusted.add('division by abs: entries are not zero')
    name = c.__dict__.setdefault('phases', {}).setdefault(array_key(x), len(c.__dict__['phases']))
    r = A.leaf_array('phase%d' % name, tuple(mk(a.dim) for a in x.axes), x.dtype.kind != 'c', x.dtype)
    leaf = r.terms[0].nodes[0][0]

    def value(ev):
        m = ev.array(x)
        return m / abs(m)
    leaf.define = ('phase', value)
    return r


def rule_merge(t):
    """Merge internal labels which always appear next to each other"""
    while True:
        u = uses(t)
        hit = None
        for x, occ in u.items():
            if any(o[0] == 'out' for o in occ):
                continue
            n, k, p = occ[0]
            ls = t.nodes[n][2][k][0]
            if p + 1 >= len(ls):
                continue
            y = ls[p + 1]
            oy = u[y]
            if y == x or len(oy) != len(occ) or any(o[0] == 'out' for o in oy):
                continue
            if set((a, b, q + 1) for a, b, q in occ) == set(oy):
                hit = (x, y)
                break
        if hit is None:
            return t
        x, y = hit
        nodes = [(l, c, tuple((tuple(z for z in ls if z != y), st) for ls, st in sl)) for l, c, sl in t.nodes]
        dims = dict(t.dims)
        dims[x] = P(dims[x] * dims.pop(y))
        t = Term(t.coef, nodes, t.out, dims)


MODE = ['fold']


def match_network(pat, t):
    """Find the network of term ``pat`` (outputs: one label per axis) inside of term t.

    Returns (nodes of t, conjugated, slot of t per axis of pat) or None"""
    pu = uses(pat)
    outl = [sp[0] for sp in pat.out]
    if len(set(outl)) != len(outl):
        return None
    tu = uses(t)

    def fit(pn, tn, conj, m):
        """Extend the label map m (label -> (labels, start)) by matching two nodes"""
        pl, pc, ps = pat.nodes[pn]
        tl, tc, ts = t.nodes[tn]
        if pl.key != tl.key or (not pl.real and (pc != tc) != conj):
            return None
        m = dict(m)
        for (ls, st), (lt, su) in zip(ps, ts):
            ls = [x for x in ls if pat.dims[x] != ONE]
            lt = list(lt)
            if len(ls) == 1 and ls[0] in outl and len(pu[ls[0]]) == 2:
                # open index used once: a window of it is fine
                if P(st) != ZERO:
                    if P(su) != P(st):
                        return None
                    su = ZERO
                new = (tuple(lt), P(su))
                if m.setdefault(ls[0], new) != new:
                    return None
                continue
            if P(st) != P(su):
                return None
            pos = 0
            for x in ls:
                d, acc = P(pat.dims[x]), []
                pr = ONE
                while P(pr) != d:
                    if pos >= len(lt):
                        return None
                    acc.append(lt[pos])
                    pr = pr * t.dims[lt[pos]]
                    pos += 1
                new = (tuple(acc), ZERO)
                if m.setdefault(x, new) != new:
                    return None
            if pos != len(lt):
                return None
        return m

    order = list(range(len(pat.nodes)))

    def search(k, used, conj, m):
        if k == len(order):
            # internal labels must not be used elsewhere
            inner = {}
            for x, occ in pu.items():
                if x in outl or pat.dims[x] == ONE:
                    continue
                for y in m[x][0]:
                    inner[y] = None
            for y in inner:
                if any(o[0] == 'out' or o[0] not in used for o in tu[y]):
                    return None
            return m
        for tn in range(len(t.nodes)):
            if tn in used:
                continue
            m2 = fit(order[k], tn, conj, m)
            if m2 is None:
                continue
            r = search(k + 1, used + [tn], conj, m2)
            if r is not None:
                found.append(used + [tn])
                return r
        return None

    for conj in (False, True):
        if conj and all(l.real for l, _, _ in pat.nodes):
            break
        found = []
        m = search(0, [], conj, {})
        if m is not None:
            return found[0], conj, [m.get(x, ((), ZERO)) if pat.dims[x] != ONE else ((), ZERO) for x in outl]
    return None


def unfold_late(axes, terms):
    """As unfold, but isometries are used only at the end"""
    return unfold(axes, terms, mode='raw')


def unfold(axes, terms, limit=300, mode='unfold'):
    """Replace factorized matrices by the product of their factors, oldest factorization first"""
    c = ctx()
    recs = list(c.__dict__.get('facs', {}).values())
    pats = []
    for rec in recs:
        if len(rec.M.terms) != 1 or not rec.M.terms[0].nodes:
            continue
        p = drop_units(rec.M.terms[0])
        if any(len(sp) != 1 or not isinstance(sp[0], int) for sp in p.out) or len(p.coef.d) != 1:
            continue
        pats.append((rec, p))
    old = MODE[0]
    MODE[0] = mode
    try:
        work = simp_terms(axes, terms, merge=False)
        for rec, p in pats:
            todo, done = work, []
            n = 0
            while todo:
                t = todo.pop()
                n += 1
                c.tick()
                if n > limit:
                    raise Unsupported('unfolding did not end')
                # patterns contain labels of this term's style: compare after dropping units
                r = match_network(p, drop_units(t))
                if r is None:
                    done.append(t)
                    continue
                t = drop_units(t)
                ns, conj, slots = r
                co = (p.coef.conj() if conj else p.coef).inv()
                rest = [x for k, x in enumerate(t.nodes) if k not in ns]
                dims = dict(t.dims)
                k = new_label(dims, P(rec.k))
                ks = ((k,), ZERO)
                a, b = rec.ends
                la, lb = rec.parts[a], rec.parts[b]
                rest.append((la, conj and not la.real, tuple(slots[:rec.nrow]) + (ks,)))
                if rec.mid:
                    rest.append((rec.parts[rec.mid], False, (ks,)))
                rest.append((lb, conj and not lb.real, (ks,) + tuple(slots[rec.nrow:])))
                used = set(x for _, _, sl in rest for ls, _ in sl for x in ls)
                for sp in t.out:
                    used.update(spec_labels(sp))
                gone = set(x for i in ns for ls, _ in t.nodes[i][2] for x in ls)
                dims = {x: v for x, v in dims.items() if x in used or x not in gone}
                todo.extend(simp_terms(axes, [Term(t.coef * co, rest, t.out, dims)], merge=False))
            work = done
        MODE[0] = 'unfold'
        return simp_terms(axes, work)
    finally:
        MODE[0] = old


def rule_factor(t, axes):
    """Rules of factorizations (assumed contracts of QR / SVD)"""
    if MODE[0] == 'raw':
        return None
    byrec = {}
    for n, (l, c, sl) in enumerate(t.nodes):
        if l.define is not None and l.define[0] == 'fac':
            byrec.setdefault(id(l.define[2]), []).append(n)
    if not byrec:
        return None
    u = uses(t)

    def only(labels, where):
        """labels are used exactly in the given (node, slot) places"""
        for x in labels:
            if sorted((o[0], o[1]) for o in u[x] if o[0] != 'out') != sorted(where) or \
                    any(o[0] == 'out' for o in u[x]):
                return False
        return True

    for ns in byrec.values():
        rec = t.nodes[ns[0]][0].define[2]
        for i in ns:
            li, ci, si = t.nodes[i]
            for j in ns:
                if j == i:
                    continue
                lj, cj, sj = t.nodes[j]
                ki, kj = li.define[1], lj.define[1]
                # isometry: first * conj(first)
                if ki == kj and i < j and ki in rec.iso and (ci != cj or li.real):
                    ks = rec.kslot(ki)
                    rows = [k for k in range(len(si)) if k != ks]
                    ok = all(si[k] == sj[k] and full(li, k, si[k], t.dims) for k in rows)
                    if ok and all(only(si[k][0], [(i, k), (j, k)]) for k in rows):
                        gone = set(x for k in rows for x in si[k][0])
                        dims = {k: v for k, v in t.dims.items() if k not in gone}
                        rest = [t.nodes[k] for k in range(len(t.nodes)) if k not in (i, j)]
                        d = A.delta_leaf(rec.kdim(ki) if hasattr(rec, 'parts') else rec.k)
                        rest.append((d, False, (si[ks], sj[ks])))
                        return [Term(t.coef, rest, t.out, dims)]
                # the two parts of a full basis are orthogonal
                if ki != kj and set((ki, kj)) in (set(('u', 'u2')), set(('v', 'v2'))) and (ci != cj or li.real):
                    ks = rec.kslot(ki)
                    rows = [k for k in range(len(si)) if k != ks]
                    if all(si[k] == sj[k] and full(li, k, si[k], t.dims) for k in rows) and \
                            all(only(si[k][0], [(i, k), (j, k)]) for k in rows):
                        return []
                # square isometry: unitary
                if ki == kj and i < j and ki in rec.iso and (ci != cj or li.real):
                    ks = rec.kslot(ki)
                    rows = [k for k in range(len(si)) if k != ks]
                    pr = ONE
                    for k in rows:
                        pr = pr * li.dims[k]
                    if P(pr) == P(rec.k) and si[ks] == sj[ks] and full(li, ks, si[ks], t.dims) \
                            and only(si[ks][0], [(i, ks), (j, ks)]):
                        dims = {k: v for k, v in t.dims.items() if k not in si[ks][0]}
                        rest = [t.nodes[k] for k in range(len(t.nodes)) if k not in (i, j)]
                        for k in rows:
                            rest.append((A.delta_leaf(P(li.dims[k])), False, (si[k], sj[k])))
                        return [Term(t.coef, rest, t.out, dims)]
                # conj(R) R = conj(A) A
                if MODE[0] == 'fold' and ki == kj == 'r' and rec.ends == ('q', 'r') and (ci != cj or li.real) and i < j:
                    if si[0] == sj[0] and full(li, 0, si[0], t.dims) and only(si[0][0], [(i, 0), (j, 0)]):
                        dims = {k: v for k, v in t.dims.items() if k not in si[0][0]}
                        rest = [t.nodes[k] for k in range(len(t.nodes)) if k not in (i, j)]
                        n = rec.nrow
                        G = A.tensordot(rec.M.conj() if ci else rec.M,
                                        rec.M.conj() if cj or li.real else rec.M,
                                        (list(range(n)), list(range(n))))
                        return plug(t.coef, rest, t.out, dims, axes, G, list(si[1:]) + list(sj[1:]))
                # product of all parts
                if MODE[0] == 'fold' and (ki, kj) == rec.ends and ci == cj:
                    ks, kt = rec.kslot(ki), rec.kslot(kj)
                    if si[ks] != sj[kt] or not full(li, ks, si[ks], t.dims):
                        continue
                    where = [(i, ks), (j, kt)]
                    drop = [i, j]
                    if rec.mid:
                        ms = [m for m in ns if t.nodes[m][0].define[1] == rec.mid and t.nodes[m][2][0] == si[ks]]
                        if not ms:
                            continue
                        where.append((ms[0], 0))
                        drop.append(ms[0])
                    if not only(si[ks][0], where):
                        continue
                    dims = {k: v for k, v in t.dims.items() if k not in si[ks][0]}
                    rest = [t.nodes[k] for k in range(len(t.nodes)) if k not in drop]
                    slots = [si[k] for k in range(len(si)) if k != ks] + \
                        [sj[k] for k in range(len(sj)) if k != kt]
                    return plug(t.coef, rest, t.out, dims, axes, rec.M.conj() if ci else rec.M, slots)
    return None


def rule_pinv(t):
    """pinv(M) M = 1 (full column rank)"""
    for n, (l, c, sl) in enumerate(t.nodes):
        if l.define is None or l.define[0] != 'pinv':
            continue
        pat = l.define[1]
        rest = Term(t.coef, t.nodes[:n] + t.nodes[n + 1:], t.out, t.dims)
        r = match_network(pat, rest)
        if r is None:
            continue
        ns, conj, slots = r
        nr = l.define[2]
        rows, cols = sl[l.define[3]:], sl[:l.define[3]]
        if conj != c or tuple(slots[:nr]) != tuple(rows):
            continue
        inner = set(x for ls, _ in rows for x in ls)
        nodes = [x for k, x in enumerate(rest.nodes) if k not in ns]
        if any(x in inner for _, _, s2 in nodes for ls, _ in s2 for x in ls) or \
                any(x in inner for sp in t.out for x in spec_labels(sp)):
            continue
        co = (pat.coef.conj() if conj else pat.coef).inv()
        for a, b, k in zip(cols, slots[nr:], range(len(cols))):
            nodes.append((A.delta_leaf(P(l.dims[k])), False, (a, b)))
        return [Term(t.coef * co.inv(), nodes, t.out, {x: p for x, p in t.dims.items() if x not in inner})]
    return None


def plug(coef, nodes, out, dims, axes, M, slots):
    """Terms with array M (one axis per slot) put at the given slots"""
    ax = [Axis(tuple(('d', dims[x]) for x in ls)) for ls, _ in slots]
    R = SymArray(list(axes) + ax, [Term(coef, nodes, tuple(out) + tuple(tuple(ls) for ls, _ in slots), dims)])
    for i, (ls, st) in enumerate(slots):
        size = pdim(ax[i].f)
        if P(st) != ZERO or P(size) != P(M.axes[i].dim):
            M = A.take_slice(M, i, mk(P(st)), mk(P(st) + size))
    n = len(axes)
    r = A.tensordot(R, M, (list(range(n, n + len(slots))), list(range(len(slots)))))
    # axes of the output may have been refined: not allowed here
    return r.terms


def simp_terms(axes, terms, limit=4000, merge=True):
    work, out = list(terms), []
    c = ctx()
    steps = 0
    while work:
        steps += 1
        if steps > limit:
            raise Unsupported('rewriting did not end')
        c.tick()
        t = drop_units(work.pop())
        if t.coef.is_zero():
            continue
        r = rule_delta(t)
        if r is None:
            r = rule_delta2(t)
        if r is None:
            r = rule_phase(t)
        if r is None:
            r = rule_pinv(t)
        if r is None:
            try:
                r = rule_factor(t, axes)
            except Unsupported:
                r = None
        if r is not None:
            work.extend(r)
            continue
        # norm atoms with exponent >= 2
        r = rule_atoms(t)
        if r is not None:
            work.extend(r)
            continue
        out.append(rule_merge(t) if merge else t)
    return out


def rule_atoms(t):
    c = ctx()
    nets = getattr(c, 'nets', {})
    if not nets:
        return None
    for m, v in t.coef.d.items():
        for at, ex in m:
            e = nets.get(at if at in nets else A.catom(at))
            if e is None:
                continue
            sq, net = e
            need = 2 if sq else 1
            if ex >= need:
                rest = dict(t.coef.d)
                del rest[m]
                out = []
                if rest:
                    out.append(Term(Coef(rest), t.nodes, t.out, t.dims))
                low = Coef({m: v}) * Coef.atom(at, -need)
                src = net if at in nets else net.conj()
                for s in src.terms:
                    s = s.fresh()
                    d = dict(t.dims)
                    d.update(s.dims)
                    out.append(Term(low * s.coef, t.nodes + s.nodes, t.out, d))
                return out
    return None


# ---------------------------------------------------------------------------
# canonical keys
# ---------------------------------------------------------------------------

def h(x):
    return hashlib.md5(repr(x).encode()).hexdigest()


def normal(t):
    """All dimensions and window positions in the normal form of this path"""
    c = ctx()
    if not c.equal1:
        return t
    nodes = []
    for l, k, sl in t.nodes:
        if l.define is not None and l.define[0] == 'delta' and c.norm(P(l.dims[0])) != P(l.dims[0]):
            l = A.delta_leaf(c.norm(P(l.dims[0])))
        nodes.append((l, k, tuple((ls, c.norm(P(st))) for ls, st in sl)))
    return Term(t.coef, nodes, t.out, {x: c.norm(P(p)) for x, p in t.dims.items()})


def term_key(t):
    """Canonical key of the network (without coefficient), and loose summed dimensions"""
    t = normal(t)
    u = {}
    lab0 = {}
    for x, p in t.dims.items():
        lab0[x] = []
        u[x] = []
    for n, (l, c, sl) in enumerate(t.nodes):
        for k, (ls, st) in enumerate(sl):
            for p, x in enumerate(ls):
                u[x].append((n, k, p))

    def walk(sp, path):
        for i, s in enumerate(sp):
            if isinstance(s, int):
                lab0[s].append(path + (i,))
            else:
                walk(s[1], path + (i, 'b%d' % s[0]))
    outs = []

    def shape_of(sp):
        return tuple('x' if isinstance(s, int) else (s[0], shape_of(s[1])) for s in sp)
    for i, sp in enumerate(t.out):
        walk(sp, (i,))
        outs.append(shape_of(sp))
    labels = list(t.dims)
    nc = {n: h((l.key, c, tuple((len(ls), repr(st)) for ls, st in sl))) for n, (l, c, sl) in enumerate(t.nodes)}
    lc = {x: h((repr(t.dims[x]), sorted(map(repr, lab0[x])))) for x in labels}
    # summed labels without tensors
    loose = sorted(repr(t.dims[x]) for x in labels if not u[x] and not lab0[x])
    labels = [x for x in labels if u[x] or lab0[x]]

    def refine(nc, lc):
        k = -1
        while True:
            nc2 = {n: h((nc[n], [[lc[x] for x in ls] for ls, _ in t.nodes[n][2]])) for n in nc}
            lc2 = {x: h((lc[x], sorted((nc2[n], k_, p) for n, k_, p in u[x]))) for x in labels}
            nk = len(set(nc2.values())) + len(set(lc2.values()))
            nc, lc = nc2, lc2
            if nk == k:
                return nc, lc
            k = nk

    budget = [300]

    def final(nc, lc):
        nc, lc = refine(nc, lc)
        cls = {}
        for n, v in nc.items():
            cls.setdefault(v, []).append(n)
        ties = sorted((len(v), k) for k, v in cls.items() if len(v) > 1)
        if not ties:
            return describe(nc, lc)
        best = None
        for n in cls[ties[0][1]]:
            budget[0] -= 1
            if budget[0] < 0:
                raise Unsupported('too symmetric network')
            nc2 = dict(nc)
            nc2[n] = h((nc[n], 'picked'))
            k = final(nc2, lc)
            if best is None or k < best:
                best = k
            # identical stand-alone components: any choice is equivalent if disconnected
        return best

    def describe(nc, lc):
        order = sorted(nc, key=lambda n: nc[n])
        num = {}

        def name(x):
            if x not in num:
                num[x] = len(num)
            return num[x]

        def nm(sp):
            return tuple(name(s) if isinstance(s, int) else (s[0], nm(s[1])) for s in sp)
        o = tuple(nm(sp) for sp in t.out)
        nodes = tuple((t.nodes[n][0].key, t.nodes[n][1],
                       tuple((tuple(name(x) for x in ls), repr(st)) for ls, st in t.nodes[n][2]))
                      for n in order)
        ds = tuple(repr(t.dims[x]) for x in sorted(num, key=lambda x: num[x]))
        return repr((o, nodes, ds))
    return final(nc, lc), loose


def loose_coef(t):
    """Summed labels without tensors count their dimension"""
    used = set(x for _, _, sl in t.nodes for ls, _ in sl for x in ls)
    for sp in t.out:
        used.update(spec_labels(sp))
    c = t.coef
    dims = {}
    for x, p in t.dims.items():
        if x in used:
            dims[x] = p
        else:
            c = c * Coef.of(P(p))
    return Term(c.norm(), t.nodes, t.out, dims)


def collect(axes, terms, simp=simp_terms):
    """key -> (coef, term)"""
    d = {}
    for t in simp(axes, terms):
        t = loose_coef(t)
        k, _ = term_key(t)
        if k in d:
            d[k] = (d[k][0] + t.coef, d[k][1])
        else:
            d[k] = (t.coef, t)
    return {k: (c.norm(), t) for k, (c, t) in d.items() if not c.norm().is_zero()}


def collect_num(axes, terms, simp=simp_terms):
    """collect up to a nonzero factor: denominators which appear on the way are removed"""
    d = collect(axes, terms, simp)
    for _ in range(4):
        if not any(ex < 0 for c, _ in d.values() for m in c.d for _, ex in m):
            break
        d = collect(axes, clear_denominators([Term(c, t.nodes, t.out, t.dims) for c, t in d.values()]), simp)
    return d


def array_key(a):
    """Canonical description of an array: same key => same array"""
    a = flat_axes(a)
    d = collect(a.axes, a.terms)
    return repr((tuple(tuple(map(repr, nfactors(x.f))) for x in a.axes), a.dtype.kind,
                 sorted((k, repr(c.key())) for k, (c, _) in d.items())))


def flat_axes(a):
    for i in range(len(a.axes)):
        f = nfactors(a.axes[i].f)
        if f != tuple(a.axes[i].f):
            a = conform_multi(a, i, f)
    return a


def clear_denominators(terms):
    c = ctx()
    nets = getattr(c, 'nets', {})
    if not nets:
        return terms
    low = {}
    for t in terms:
        for m in t.coef.d:
            for at, ex in m:
                if ex < 0:
                    low[at] = min(low.get(at, 0), ex)
    f = CONE
    for at, ex in low.items():
        f = f * Coef.atom(at, -ex)
    return [Term(t.coef * f, t.nodes, t.out, t.dims) for t in terms]


def difference(a, b):
    """Aligned a - b as (axes, terms); ValueError if shapes differ"""
    if len(a.axes) != len(b.axes):
        raise ValueError('different number of axes')
    for i in range(len(a.axes)):
        if P(a.axes[i].dim) != P(b.axes[i].dim):
            if not ctx().entails('==', P(a.axes[i].dim) - P(b.axes[i].dim)):
                raise ValueError('axis %d: %s / %s' % (i, mk(a.axes[i].dim), mk(b.axes[i].dim)))
        T = common(a.axes[i].f, b.axes[i].f)
        a, b = conform_multi(a, i, T), conform_multi(b, i, T)
    terms = list(a.terms) + [Term(t.coef * Coef.of(-1), t.nodes, t.out, t.dims) for t in b.terms]
    return a.axes, clear_denominators(terms)


def enumerate_small(axes, terms, limit=4000, inner=False):
    """Expand all (inner: only the summed) indices which run over a small constant range"""
    def const(p):
        p = P(p)
        return p.const() if p.is_const() and 2 <= p.const() <= 4 else None

    def faxis(f):
        if f[0] == 'd':
            n = const(f[1])
            return f if n is None else ('s', ((),) * n)
        return ('s', tuple(tuple(faxis(g) for g in b) for b in f[1]))

    def fix(spec, x, i):
        return tuple((i, ()) if y == x and isinstance(y, int) else
                     (y[0], fix(y[1], x, i)) if not isinstance(y, int) else y for y in spec)
    if not inner:
        axes = [Axis(tuple(faxis(f) for f in ax.f)) for ax in axes]
    work, out = [drop_units(t) for t in terms], []
    while work:
        ctx().tick()
        t = work.pop()
        keep = set(x for sp in t.out for x in spec_labels(sp)) if inner else ()
        xs = [x for x, p in t.dims.items() if const(p) is not None and x not in keep]
        if not xs:
            out.append(t)
            if len(out) > limit:
                raise Unsupported('too many indices to enumerate')
            continue
        x = xs[0]
        dims = {k: v for k, v in t.dims.items() if k != x}
        for i in range(const(t.dims[x])):
            nodes = []
            for l, c, sl in t.nodes:
                ns = []
                for ls, st in sl:
                    while x in ls:
                        k = ls.index(x)
                        stride = ONE
                        for y in ls[k + 1:]:
                            stride = stride * P(t.dims[y])
                        ls, st = ls[:k] + ls[k + 1:], P(st) + stride * Poly.of(i)
                    ns.append((ls, st))
                nodes.append((l, c, tuple(ns)))
            work.append(known(Term(t.coef, nodes, tuple(fix(s, x, i) for s in t.out), dims)))
    return axes, out


def known(t):
    """Entries of known matrices become numbers"""
    co, nodes = t.coef, []
    for l, c, sl in t.nodes:
        if l.define is not None and l.define[0] == 'const' and all(not ls and P(st).is_const() for ls, st in sl):
            v = np.asarray(l.define[1]).reshape([P(p).const() for p in l.dims])[tuple(P(st).const() for _, st in sl)]
            co = co * Coef.of(complex(v).conjugate() if c else complex(v))
        else:
            nodes.append((l, c, sl))
    return t if len(nodes) == len(t.nodes) else Term(co.norm(), nodes, t.out, t.dims)


def assume_zero(a):
    """Precondition: this number vanishes"""
    fs = ctx().__dict__.setdefault('facts', [])
    for x in ([a, a.conj()] if a.dtype.kind == 'c' else [a]):
        fs.append(collect([], x.terms))


def assume_nonneg(a):
    ctx().__dict__.setdefault('nonnegs', []).append(a.copy())


def nonneg(a):
    xs = ctx().__dict__.get('nonnegs', ())
    return any(zero(a - x) for x in xs) or any(proved(a, x) is None for x in xs)


def zero(a):
    """The number vanishes, by computation or as a linear combination of preconditions"""
    d = collect_num([], clear_denominators(list(a.terms)))
    if not d:
        return True
    fs = ctx().__dict__.get('facts')
    if not fs:
        return False
    keys = sorted(set(k for f in fs for k in f) | set(d))
    if not all(c.is_const() for f in fs + [d] for c, _ in f.values()):
        return False

    def vec(f):
        return [f[k][0].d.get((), (0, 0)) if k in f else (0, 0) for k in keys]

    def mul(x, y):
        return x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]
    rows = []                       # echelon form of the preconditions

    def reduce_(v):
        for piv, r in rows:
            if v[piv] != (0, 0):
                c = v[piv]
                v = [(x[0] - m[0], x[1] - m[1]) for x, m in zip(v, (mul(c, y) for y in r))]
        return v
    for f in fs:
        v = reduce_(vec(f))
        piv = [i for i, x in enumerate(v) if x != (0, 0)]
        if piv:
            x, y = v[piv[0]]
            n = Fraction(x * x + y * y)
            rows.append((piv[0], [mul(z, (x / n, -y / n)) for z in v]))
    return all(x == (0, 0) for x in reduce_(vec(d)))


def gather(axes, terms, limit=2000):
    """Join the terms which differ only in one index running over its entire range"""
    out = []
    work = [loose_coef(drop_units(t)) for t in simp_terms(axes, terms, merge=False)]
    if len(work) > limit:
        raise Unsupported('too many terms to gather')
    changed = True
    while changed:
        changed = False
        groups = {}
        for pos, t in enumerate(work):
            ctx().tick()
            fixed = []
            for n, (l, c, sl) in enumerate(t.nodes):
                for k, (ls, st) in enumerate(sl):
                    p = P(l.dims[k])
                    if not ls and P(st).is_const() and p.is_const() and p.const() > 1:
                        fixed.append((n, k, p.const(), P(st).const()))
            for a, x in enumerate(fixed):
                for y in fixed[a + 1:]:
                    if x[2:] != y[2:]:
                        continue
                    dims = dict(t.dims)
                    g = new_label(dims, Poly.of(x[2]))
                    nodes = [(l, c, tuple(((g,), ZERO) if (n, k) in (x[:2], y[:2]) else s
                                          for k, s in enumerate(sl)))
                             for n, (l, c, sl) in enumerate(t.nodes)]
                    t2 = Term(t.coef, nodes, t.out, dims)
                    key = (term_key(t2)[0], repr(t.coef.key()))
                    gr = groups.setdefault(key, {})
                    gr.setdefault(x[3], pos)
                    if len(gr) == x[2] and len(set(gr.values())) == x[2]:
                        drop = set(gr.values())
                        work = [w for i, w in enumerate(work) if i not in drop]
                        work += [loose_coef(drop_units(w)) for w in simp_terms(axes, [t2], merge=False)]
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    return work


def proved(a, b):
    """None if the arrays are shown to be equal, otherwise what is left"""
    try:
        axes, terms = difference(a, b)
        d = collect_num(axes, terms)
        if not d:
            return None
        if ctx().__dict__.get('facs'):
            for how in (unfold, unfold_late):
                try:
                    if not collect(axes, terms, how):
                        return None
                except Unsupported:
                    pass
        why = '%d terms do not cancel, e.g. %s' % (len(d), next(iter(d))[:300])
        try:
            if not collect(axes, gather(axes, [Term(co, t.nodes, t.out, t.dims) for co, t in d.values()])):
                return None
        except Unsupported:
            pass
        for inner in (True, False):
            try:
                ax, ts = enumerate_small(axes, simp_terms(axes, terms, merge=False), inner=inner)
                if not collect(ax, ts):
                    return None
            except Unsupported:
                pass
        return why
    except Unsupported as e:
        return str(e)


def equal(a, b):
    """('yes', n) / ('no', witness) / ('unknown', why).  Shapes must agree."""
    why = proved(a, b)
    if why is None:
        return 'yes', len(a.terms) + len(b.terms)
    # numeric evaluation: refuted only if the values differ at some admissible dimensions
    worst = None
    for seed in range(3):
        val = valuation(seed)
        if val is None:
            return 'unknown', why + ' (no model)'
        try:
            ev = Ev(val, seed)
            x, y = ev.array(a), ev.array(b)
        except (Unsupported, MemoryError, KeyError) as e:
            return 'unknown', why + ' (%r)' % (e,)
        if x.shape != y.shape:
            return 'unknown', 'internal: shapes %s %s' % (x.shape, y.shape)
        sc = max(1., abs(x).max() if x.size else 0, abs(y).max() if y.size else 0)
        if x.size and abs(x - y).max() > 1e-6 * sc:
            return 'no', dict(dims={str(k): v for k, v in val.items()}, deviation=float(abs(x - y).max()))
    return 'unknown', why


# ---------------------------------------------------------------------------
# numeric evaluation
# ---------------------------------------------------------------------------

def valuation(seed=0):
    c = ctx()
    return c.model(seed=seed)


class Ev(object):
    def __init__(self, val, seed=0):
        self.val = dict(val)
        self.seed = seed
        self.leaves = {}
        self.recs = {}

    def poly(self, p):
        p = P(p)
        for v in p.vars():
            if v not in self.val:
                self.val[v] = 2
        return p.evaluate(self.val)

    def atom(self, at):
        if at[0] == 'dim':
            return self.poly(Poly.var(at[1]))
        nets = getattr(ctx(), 'nets', {})
        if at in nets or A.catom(at) in nets:
            sq, net = nets[at if at in nets else A.catom(at)]
            x = complex(self.array(net))
            if at not in nets:
                x = x.conjugate()
            return math.sqrt(abs(x)) if sq else x
        rs = np.random.RandomState(zlib.crc32(repr((at[1], self.seed)).encode()) & 0x7fffffff)
        x = rs.randn() + .1
        if at[0] == 'c':
            x = complex(x, rs.randn())
            if at[2]:
                x = x.conjugate()
        return x

    def leaf(self, l):
        if id(l) in self.leaves:
            return self.leaves[id(l)][0]
        shape = tuple(self.poly(p) for p in l.dims)
        if np.prod(shape, dtype=float) > 2e6:
            raise Unsupported('too large to evaluate')
        if l.define is None:
            rs = np.random.RandomState(zlib.crc32(repr((l.key, self.seed)).encode()) & 0x7fffffff)
            x = rs.randn(*shape) if shape else np.array(rs.randn())
            if not l.real:
                x = x + 1j * (rs.randn(*shape) if shape else rs.randn())
        elif l.define[0] == 'delta':
            x = np.eye(shape[0])
        elif l.define[0] == 'const':
            x = np.asarray(l.define[1]).reshape(shape)
        elif l.define[0] == 'fac' and hasattr(l.define[2], 'random'):
            x = l.define[2].random(self, shape, zlib.crc32(repr((l.key, self.seed)).encode()), l.real)
        elif l.define[0] == 'fac':
            x = self.rec(l.define[2])[l.define[1]].reshape(shape)
        elif l.define[0] == 'pinv':
            m = self.array(l.define[4])
            if m.shape[0] < m.shape[1]:
                raise Unsupported('not of full column rank')
            x = np.linalg.pinv(m).reshape(shape)
        elif l.define[0] in ('fun', 'phase'):
            x = np.asarray(l.define[1](self)).reshape(shape)
        else:
            raise Unsupported('leaf %s' % l)
        self.leaves[id(l)] = (x, l)
        return x

    def rec(self, rec):
        if id(rec) not in self.recs:
            m = self.array(rec.M)
            r = int(np.prod(m.shape[:rec.nrow], dtype=int))
            self.recs[id(rec)] = (rec.compute(m.reshape((r, -1))), rec)
        return self.recs[id(rec)][0]

    def term(self, t):
        """Array over the distinct output labels, and these labels"""
        c = complex(t.coef.norm().evaluate(self))
        outl = []
        for sp in t.out:
            for x in spec_labels(sp):
                if x not in outl:
                    outl.append(x)
        num = {}

        def name(x):
            return num.setdefault(x, len(num))
        ops = []
        for l, cj, sl in t.nodes:
            x = self.leaf(l)
            if cj:
                x = x.conj()
            shape, labs, cut = [], [], []
            for k, (ls, st) in enumerate(sl):
                ds = [self.poly(t.dims[y]) for y in ls]
                s0 = self.poly(st)
                n = int(np.prod(ds, dtype=int))
                if s0 < 0 or s0 + n > x.shape[k]:
                    raise Unsupported('window out of range')
                cut.append(slice(s0, s0 + n))
                shape.extend(ds)
                labs.extend(name(y) for y in ls)
            ops += [x[tuple(cut)].reshape(shape), labs]
        used = set(num)
        for y, p in t.dims.items():
            if y not in used and y not in outl:
                c = c * self.poly(p)
        for y in outl:
            if y not in used:
                ops += [np.ones(self.poly(t.dims[y])), [name(y)]]
        if not ops:
            return np.array(c), []
        if len(num) > 50:
            raise Unsupported('too many indices to evaluate')
        r = np.einsum(*(ops + [[name(y) for y in outl]]), optimize='greedy')
        return c * r, outl

    def array(self, a):
        shape = tuple(self.poly(x.dim) for x in a.axes)
        if np.prod(shape, dtype=float) > 2e6:
            raise Unsupported('too large to evaluate')
        res = np.zeros(shape, complex)
        for t in a.terms:
            v, labs = self.term(t)
            dims = [self.poly(t.dims[x]) for x in labs]
            grid = {x: np.arange(d).reshape([d if j == i else 1 for j in range(len(labs))])
                    for i, (x, d) in enumerate(zip(labs, dims))}
            idx = []
            for ax, sp in zip(a.axes, t.out):
                idx.append(np.broadcast_to(self.index(ax.f, sp, grid), dims))
            if idx:
                np.add.at(res, tuple(idx), v)
            else:
                res = res + v
        return res

    def index(self, fs, sp, grid):
        r = 0
        for f, s in zip(fs, sp):
            d = self.poly(fdim(f))
            if isinstance(s, int):
                i = grid[s]
            else:
                off = sum(self.poly(pdim(b)) for b in f[1][:s[0]])
                i = off + self.index(f[1][s[0]], s[1], grid)
            r = r * d + i
        return r


# ---------------------------------------------------------------------------
# factorizations (assumed contracts)
# ---------------------------------------------------------------------------

class Rec(object):
    """One factorization of a matrix: parts, rules"""

    def __init__(self, kind, M, nrow, ncol, k, name):
        self.kind, self.M, self.nrow, self.ncol, self.k, self.name = kind, M, nrow, ncol, k, name
        if kind == 'qr':
            self.iso, self.ends, self.mid = ('q',), ('q', 'r'), None
        else:
            self.iso, self.ends, self.mid = ('u', 'v', 'u2', 'v2'), ('u', 'v'), 's'

    def kslot(self, part):
        return {'q': self.nrow, 'u': self.nrow, 'r': 0, 'v': 0, 's': 0, 'u2': self.nrow, 'v2': 0}[part]

    def kdim(self, part):
        return P(self.parts[part].dims[self.kslot(part)])

    def compute(self, m):
        if self.kind == 'qr':
            q, r = np.linalg.qr(m)
            return dict(q=q, r=r)
        u, s, v = np.linalg.svd(m)
        k = len(s)
        return dict(u=u[:, :k], s=s, v=v[:k], u2=u[:, k:], v2=v[k:])


def factorize(kind, a, fullm=False):
    """qr / svd of a two-axis array"""
    if len(a.axes) != 2:
        raise Unsupported('factorization of an array with %d axes' % len(a.axes))
    c = ctx()
    a = flat_axes(a)
    m, n = mk(a.axes[0].dim), mk(a.axes[1].dim)
    k = P(m if m <= n else n)
    real = a.dtype.kind != 'c'
    key = (kind, array_key(a))
    cache = c.__dict__.setdefault('facs', {})
    if key not in cache:
        rows, cols = list(a.axes[0].f), list(a.axes[1].f)
        M = SymArray([Axis((f,)) for f in rows + cols],
                     [Term(t.coef, t.nodes, tuple((s,) for s in t.out[0] + t.out[1]), t.dims) for t in a.terms],
                     a.dtype)
        name = '%s%d' % (kind, len(cache))
        rec = Rec(kind, M, len(rows), len(cols), k, name)
        rd, cd = [fdim(f) for f in rows], [fdim(f) for f in cols]
        parts = {}
        if kind == 'qr':
            parts['q'] = Leaf((name, 'q'), rd + [k], real, ('fac', 'q', rec))
            parts['r'] = Leaf((name, 'r'), [k] + cd, real, ('fac', 'r', rec))
        else:
            parts['u'] = Leaf((name, 'u'), rd + [k], real, ('fac', 'u', rec))
            parts['s'] = Leaf((name, 's'), [k], True, ('fac', 's', rec))
            parts['v'] = Leaf((name, 'v'), [k] + cd, real, ('fac', 'v', rec))
            # orthogonal complements (full_matrices)
            parts['u2'] = Leaf((name, 'u2'), rd + [P(m) - k], real, ('fac', 'u2', rec))
            parts['v2'] = Leaf((name, 'v2'), [P(n) - k] + cd, real, ('fac', 'v2', rec))
        rec.parts = parts
        cache[key] = rec
        c.trusted.add('numpy.linalg.%s' % kind)
    rec = cache[key]

    def arr(part, groups):
        leaf = rec.parts[part]
        dims, slots, out, axes = {}, [], [], []
        pos = 0
        for g in groups:
            sp, fs = [], []
            for _ in range(g):
                p = P(leaf.dims[pos])
                l = new_label(dims, p)
                slots.append(((l,), ZERO))
                sp.append(l)
                fs.append(('d', p))
                pos += 1
            out.append(tuple(sp))
            axes.append(Axis(fs))
        return SymArray(axes, [Term(CONE, ((leaf, False, tuple(slots)),), out, dims)],
                        A.F64 if part == 's' or real else A.C128)
    if kind == 'qr':
        return arr('q', [rec.nrow, 1]), arr('r', [1, rec.ncol])
    u, sv, v = arr('u', [rec.nrow, 1]), arr('s', [1]), arr('v', [1, rec.ncol])
    if fullm:
        if mk(P(m)) != mk(P(rec.k)):
            u = A.concatenate([u, arr('u2', [rec.nrow, 1])], 1)
        if mk(P(n)) != mk(P(rec.k)):
            v = A.concatenate([v, arr('v2', [1, rec.ncol])], 0)
    return u, sv, v


def closed_atom(a, sqrt=False):
    """Coefficient which stands for the value of a 0-d array (or its square root)"""
    c = ctx()
    nets = c.__dict__.setdefault('nets', {})
    names = c.__dict__.setdefault('netnames', {})
    key = (sqrt, array_key(a))
    if key not in names:
        real = sqrt or a.dtype.kind != 'c'
        nm = 'net%d' % len(names)
        at = ('r', nm) if real else ('c', nm, False)
        names[key] = at
        nets[at] = (sqrt, a.copy())
    return Coef.atom(names[key])


def closed_coef(a):
    return closed_atom(a)


A.closed_coef = closed_coef
