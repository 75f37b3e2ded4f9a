"""Loop summarisation: closed forms for the effect of a counted loop.

The loop body has been evaluated once, for a generic iteration t, with `phi`
placeholders for the values the modified locations have at the start of the
iteration.  `solve` turns the resulting transfer function into a closed form
over all iterations: independent element writes, accumulations, last-writer
selections and running sums are solved exactly; anything else becomes a `rec`
base that carries the transfer function itself.
"""
from . import terms as T
from .terms import (Poly, Cond, Lam, Base, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, subst,
                    subst_cond, c_and, c_not, c_or, c_ge, c_eq, ite, ix, lift, lam, ref, of_atom, atom)
from .ranges import Ctx, simplify, using, simp_cond


class Loc:
    """one location modified by a loop. shape None: scalar"""
    __slots__ = ('name', 'shape', 'init', 'E', 'phi', 'final', 'before', 'iscond')

    def __init__(self, name, shape, init, phi_):
        self.name = name
        self.shape = shape
        self.init = init
        self.phi = phi_          # Poly (phi atom)
        self.E = None
        self.final = None
        self.before = None       # function of t -> Poly | Lam

    @property
    def patom(self):
        return self.phi.single()

    def as_map(self, v):
        """value to substitute for phi"""
        return v if self.shape is None else lam(self.shape, v)


STATS = {'accumulate': 0, 'parallel': 0, 'overwrite': 0, 'last': 0, 'prefix': 0, 'rec': 0}


def solve(t, cnt, locs, ctx, exitc=None):
    """t: lv Poly ranging over 0..cnt-1.  locs: list of Loc with E set.
    exitc: optional (cond, {name: value at exit}) for a loop left early.
    Sets loc.final (and for exits returns (exit condition, {name: exit value}, exit iteration))."""
    tc = ctx.with_range(t, ZERO, sub(cnt, ONE))
    unresolved = list(locs)
    if exitc is None:
        progress = True
        while progress and unresolved:
            progress = False
            for L in list(unresolved):
                others = [o for o in unresolved if o is not L]
                fv = L.E.fv
                if any(o.patom in fv for o in others):
                    continue
                if L.shape is None:
                    ok = _solve_scalar(L, t, cnt, tc)
                else:
                    ok = _solve_array(L, t, cnt, ctx)
                if ok:
                    unresolved.remove(L)
                    progress = True
                    for o in unresolved:
                        if L.patom in o.E.fv:
                            o.E = subst(o.E, {L.patom: L.as_map(L.before(t))})
                            o.E = simplify_elem(o.E, o.shape, tc)
    if not unresolved:
        return None
    STATS['rec'] += 1
    return _mk_rec(t, cnt, unresolved, exitc, ctx)


def simplify_elem(e, shape, ctx):
    c = ctx
    if shape is not None:
        for i, s in enumerate(shape):
            c = c.with_range(ix(i), ZERO, sub(s, ONE))
    try:
        return simplify(e, c)
    except T.DivZero:
        return e


def nonempty(cnt, ctx):
    return ctx.prove(sub(cnt, ONE))


def _solve_scalar(L, t, cnt, tc):
    E = L.E
    pa = L.patom
    ta = t.single()
    if pa not in E.fv:
        STATS['overwrite'] += 1
        last = subst(E, {ta: sub(cnt, ONE)})
        L.final = ite(c_ge(sub(cnt, ONE)), last, L.init)
        if tc.prove(sub(cnt, ONE)):
            L.final = last
        L.before = lambda v: ite(c_ge(sub(v, ONE)), subst(E, {ta: sub(v, ONE)}), L.init)
        return True
    g = sub(E, L.phi)
    if pa not in g.fv:
        STATS['accumulate'] += 1
        with using(tc):
            L.final = add(L.init, T.bsum(t, ZERO, sub(cnt, ONE), g))
        t2 = T.fresh_lv('p')
        L.before = lambda v: add(L.init, T.bsum(t2, ZERO, sub(v, ONE), subst(g, {ta: t2})))
        return True
    for op, red in (('max', 'bmax'), ('min', 'bmin')):
        at = E.single()
        if at is not None and at.kind == 'fn' and at.args[0] == op and any(
                a is L.phi for a in at.args[1:]):
            rest = [a for a in at.args[1:] if a is not L.phi]
            if not any(pa in r.fv for r in rest):
                r = T.fn(op, *rest) if len(rest) > 1 else rest[0]
                STATS['accumulate'] += 1
                L.final = T.fn(op, L.init, T.bred(red, t, ZERO, sub(cnt, ONE), r))
                L.before = None
                t2 = T.fresh_lv('p')
                L.before = lambda v: ite(c_ge(sub(v, ONE)), T.fn(op, L.init, T.bred(
                    red, t2, ZERO, sub(v, ONE), subst(r, {ta: t2}))), L.init)
                return True
    dl = _dlist(E, L.phi, tc)
    if dl is not None and not any(pa in c.fv or pa in v.fv for c, v in dl):
        STATS['last'] += 1
        cond, val = _merge_dl(dl)
        L.final = T.blast(t, ZERO, sub(cnt, ONE), cond, val, L.init)
        t2 = T.fresh_lv('p')
        L.before = lambda v: T.blast(t2, ZERO, sub(v, ONE), subst_cond(cond, {ta: t2}),
                                     subst(val, {ta: t2}), L.init)
        return True
    return False


def _gate_split(E, default, ctx):
    """E is a sum of gated terms: split on the gate that guards the old value"""
    dv = default.fv
    for m, k in E.t:
        for a, e in m:
            at = atom(a)
            if at.kind == 'ite' and not dv.isdisjoint(at.fv):
                c = at.args[0]
                if default not in (at.args[1], at.args[2]) and at.args[1].single() is None \
                        and at.args[2].single() is None:
                    continue
                try:
                    x = simplify(E, ctx.with_cond(c))
                    y = simplify(E, ctx.with_cond(c_not(c)))
                except T.DivZero:
                    return None
                if x is E or y is E:
                    continue
                return c, x, y
    return None


def _dlist(E, default, ctx=None):
    """[(cond, value)] such that E = first matching value, else default"""
    out = []
    guard = 0
    while E is not default:
        guard += 1
        if guard > 200:
            return None
        at = E.single()
        if at is None or at.kind != 'ite':
            sp = _gate_split(E, default, ctx) if ctx is not None else None
            if sp is None:
                return None
            c, a, b = sp
        else:
            c, a, b = at.args
        if a is default:
            c, a, b = c_not(c), b, a
        if b is default:
            ra = _dlist(a, default, ctx) if not default.fv.isdisjoint(a.fv) else None
            if ra:
                return out + [(c_and(c, x), v) for x, v in ra]
            out.append((c, a))
            return out
        # default somewhere deeper
        ra = _dlist(a, default, ctx) if default.single() is not None and not default.fv.isdisjoint(a.fv) else None
        rb = _dlist(b, default, ctx) if not default.fv.isdisjoint(b.fv) else None
        if rb is not None and (ra is None):
            out.append((c, a))
            return out + rb
        if ra is not None and rb is None:
            out.append((c_not(c), b))
            return out + ra
        if ra is not None and rb is not None:
            return out + [(c_and(c, x), v) for x, v in ra] + [(c_and(c_not(c), x), v) for x, v in rb]
        return None
    return out


def _merge_dl(dl):
    cond = c_or(*[c for c, v in dl])
    val = dl[-1][1]
    for c, v in reversed(dl[:-1]):
        val = ite(c, v, val)
    return cond, val


def _ixctx(ctx, shape):
    c = ctx
    for i, s in enumerate(shape):
        c = c.with_range(ix(i), ZERO, sub(s, ONE))
    return c


def _disjuncts(c):
    """split a condition with disjunctions into a list of conjunctions (small)"""
    if c.kind == 'or':
        out = []
        for x in c.args:
            out.extend(_disjuncts(x))
        return out
    if c.kind == 'and':
        ors = [x for x in c.args if x.kind == 'or']
        if not ors:
            return [c]
        rest = [x for x in c.args if x.kind != 'or']
        out = [c_and(*rest)]
        for o in ors:
            out = [c_and(a, b) for a in out for b in _disjuncts(o)]
            if len(out) > 16:
                return [c]
        return out
    return [c]


def _solve_array(L, t, cnt, ctx):
    E = L.E
    pa = L.patom
    ta = t.single()
    n = len(L.shape)
    ic = _ixctx(ctx, L.shape)
    tic = ic.with_range(t, ZERO, sub(cnt, ONE))
    E = simplify(E, tic)
    P = T.phiarr(L.phi, L.shape, L.init.isint if False else False)
    P = _phi_base(E, pa) or P
    p0 = ref(P, *[ix(i) for i in range(n)])
    nonemp = ctx.prove(sub(cnt, ONE))
    if pa in E.fv:
        E = _pos_norm(E, P, p0, pa, n, {})
    if pa not in E.fv:
        STATS['overwrite'] += 1
        last = subst(E, {ta: sub(cnt, ONE)})
        L.final = last if nonemp else ite(c_ge(sub(cnt, ONE)), last, L.init)
        L.before = lambda v: ite(c_ge(sub(v, ONE)), subst(E, {ta: sub(v, ONE)}), L.init)
        return True
    g = sub(E, p0)
    if pa not in g.fv:
        STATS['accumulate'] += 1
        with using(tic):
            L.final = simplify(add(L.init, T.bsum(t, ZERO, sub(cnt, ONE), g)), ic)
        t2 = T.fresh_lv('p')
        L.before = lambda v: add(L.init, T.bsum(t2, ZERO, sub(v, ONE), subst(g, {ta: t2})))
        return True
    dl = _dlist(E, p0, tic)
    if dl is None:
        return False
    dl = [(c2, v) for c, v in dl for c2 in _disjuncts(c)]
    writers = []
    for c, v in dl:
        parts = list(c.args) if c.kind == 'and' else [c]
        s = None
        rest = parts
        for i, p in enumerate(parts):
            if p.kind == 'eq' and ta in p.fv and p.args[0].isint:
                co = tic._linear_coef(p.args[0], ta)
                if co is None or co.const not in (1, -1):
                    continue
                r = sub(p.args[0], mul(co, t))
                s = neg(r) if co.const == 1 else r
                rest = parts[:i] + parts[i + 1:]
                break
        if s is None:
            if any(ta in p.fv and not p.fv.isdisjoint(T._IXS[:n]) for p in parts):
                # relates t and the position, but not solvable: a data dependent or strided write
                return False
            writers.append((None, c, v))
        else:
            mp = {ta: s}
            try:
                cc = c_and(*[subst_cond(p, mp) for p in rest], c_ge(s), c_ge(sub(sub(cnt, ONE), s)))
                vv = subst(v, mp)
            except T.DivZero:
                return False
            cc = simp_cond(cc, ic)
            if cc is FALSE:
                continue
            with using(ic.with_cond(cc)):
                vv = simplify(vv, ic.with_cond(cc))
            writers.append((s, cc, vv))
    consts = [w for w in writers if w[0] is None]
    if consts:
        # same elements written in every iteration: the last one counts
        if len(consts) != len(writers):
            return False
        if any(pa in c.fv or pa in v.fv for s, c, v in consts):
            return False
        STATS['last'] += 1
        cond, val = _merge_dl([(c, v) for s, c, v in consts])
        L.final = _blast_elem(t, cnt, cond, val, L.init, nonemp)
        t2 = T.fresh_lv('p')
        L.before = lambda v: _blast_elem(t2, v, subst_cond(cond, {ta: t2}), subst(val, {ta: t2}),
                                         L.init, False)
        return True
    clean = [w for w in writers if pa not in w[2].fv and pa not in w[1].fv]
    dirty = [w for w in writers if not (pa not in w[2].fv and pa not in w[1].fv)]
    solved = {id(w): w for w in clean}
    if dirty:
        # running sum
        if len(dirty) == 1 and len(writers) == 1:
            r = _prefix(L, dirty[0], t, cnt, P, ic, dl[0], ta)
            if r:
                return True
        for w in dirty:
            w2 = _resolve_reads(L, w, writers, clean, P, n, cnt, ic)
            if w2 is None:
                return False
            solved[id(w)] = w2
    final_w = [solved[id(w)] for w in writers]
    STATS['parallel'] += 1
    L.final = simplify(_select(final_w, L.init, None), ic)
    L.before = lambda v: _select(final_w, L.init, v)
    return True


def _pos_norm(E, P, p0, pa, n, eqs):
    """below a gate that pins the position, a read of the same position is the old value"""
    if pa not in E.fv:
        return E
    out = ZERO
    for m, c in E.t:
        t = T._mk({(): c})
        for a, e in m:
            at = atom(a)
            s = of_atom(at)
            if pa in at.fv:
                if at.kind == 'ite':
                    e2 = dict(eqs)
                    cc = at.args[0]
                    for q in (cc.args if cc.kind == 'and' else (cc,)):
                        if q.kind == 'eq':
                            for i in range(n):
                                co = Ctx()._linear_coef(q.args[0], T._IXS[i])
                                if co is not None and co.const in (1, -1):
                                    r = sub(q.args[0], mul(co, ix(i)))
                                    if T._IXS[i] not in r.fv:
                                        e2[i] = neg(r) if co.const == 1 else r
                                        break
                    s = ite(cc, _pos_norm(at.args[1], P, p0, pa, n, e2), _pos_norm(at.args[2], P, p0, pa, n, eqs))
                elif at.kind == 'ref' and at.args[0] is P and eqs:
                    if all(x is ix(i) or (i in eqs and (x is eqs[i] or sub(x, eqs[i]) is ZERO))
                           for i, x in enumerate(at.args[1:])):
                        s = p0
            t = mul(t, T.power(s, e))
        out = add(out, t)
    return out


def _phi_base(E, pa):
    found = []

    def f(n):
        if isinstance(n, Base) and n.kind == 'phiarr' and n.args[0].single() is pa:
            found.append(n)
    T.walk(E, f)
    return found[0] if found else None


def _blast_elem(t, cnt, cond, val, init, nonemp):
    ta = t.single()
    ixs = [p for p in (cond.args if cond.kind == 'and' else (cond,)) if ta not in p.fv]
    dep = [p for p in (cond.args if cond.kind == 'and' else (cond,)) if ta in p.fv]
    if not dep:
        last = subst(val, {ta: sub(cnt, ONE)})
        if not nonemp:
            ixs = ixs + [c_ge(sub(cnt, ONE))]
        return ite(c_and(*ixs), last, init)
    return ite(c_and(*ixs), T.blast(t, ZERO, sub(cnt, ONE), c_and(*dep), val, init), init)


def _select(ws, init, upto):
    """value after the iterations < upto (None: all)"""
    out = init
    done = []
    for s, c, v in reversed(ws):
        cc = c if upto is None else c_and(c, c_ge(sub(sub(upto, ONE), s)))
        # earlier entries in the list win within one iteration; a later iteration wins overall
        sel = cc
        inner = v
        # compare with the already placed writers
        for (s2, c2, v2) in done:
            if s2 is s:
                continue
            both = c_and(cc, c2)
            if both is FALSE:
                continue
            later = c_ge(sub(sub(s2, s), ONE))
            if later is FALSE:
                continue
            sel = c_and(sel, c_not(c_and(c2, later)))
        out = ite(sel, inner, out)
        done.append((s, cc, v))
    return out


def _resolve_reads(L, w, writers, clean, P, n, cnt, ic):
    """replace reads of the array inside a writer's value by values known before
    that iteration"""
    s, c, v = w
    rc = ic.with_cond(c)
    ok = [True]

    def hook(at, S):
        if isinstance(at, Base):
            if at.kind == 'phiarr' and at.args[0] is L.phi:
                ok[0] = False
            return None
        if at.kind == 'ref' and at.args[0] is P:
            idx = [S.poly(p) for p in at.args[1:]]
            mp = {T._IXS[i]: idx[i] for i in range(n)}
            out = subst(L.init, mp)
            done = []
            for (s2, c2, v2) in reversed(writers):
                s2i = subst(s2, mp)
                earlier = c_and(subst_cond(c2, mp), c_ge(sub(sub(s, s2i), ONE)))
                earlier = simp_cond(earlier, rc)
                if earlier is FALSE:
                    continue
                if (s2, c2, v2) not in clean:
                    ok[0] = False
                    return None
                for (s3, c3) in done:
                    later = simp_cond(c_ge(sub(sub(s3, s2i), ONE)), rc)
                    earlier = c_and(earlier, c_not(c_and(c3, later)))
                out = ite(earlier, subst(v2, mp), out)
                done.append((s2i, earlier))
            return out
        return None
    try:
        v2 = T.rewrite(v, hook)
        c2 = T.rewrite(c, hook)
    except T.DivZero:
        return None
    if not ok[0] or L.patom in v2.fv or L.patom in c2.fv:
        return None
    return (s, c2, v2)


def _prefix(L, w, t, cnt, P, ic, dl0, ta):
    """A(f(t)) = A(f(t-1)) + g(t)"""
    s, c, v = w
    pa = L.patom
    c0, v0 = dl0            # before solving for t
    n = len(L.shape)
    # the target index of iteration t on each axis, where it depends on t
    parts = c0.args if c0.kind == 'and' else (c0,)
    tgt = [None] * n
    for p in parts:
        if p.kind == 'eq':
            for i in range(n):
                co = ic._linear_coef(p.args[0], T._IXS[i])
                if co is not None and co.const in (1, -1):
                    r = sub(p.args[0], mul(co, ix(i)))
                    if T._IXS[i] not in r.fv:
                        if tgt[i] is None:
                            tgt[i] = neg(r) if co.const == 1 else r
    # find the single read
    prev = None
    g = None
    for m, k in v0.t:
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            at = atom(m[0][0])
            if at.kind == 'ref' and at.args[0] is P:
                rest = sub(v0, T._mk({m: k}))
                if pa not in rest.fv:
                    prev, g = at.args[1:], rest
    if prev is None or pa in c0.fv:
        return False
    for i in range(n):
        if tgt[i] is not None and ta in tgt[i].fv:
            if prev[i] is not subst(tgt[i], {ta: sub(t, ONE)}):
                return False
        else:
            if prev[i] is not ix(i) and prev[i] is not tgt[i]:
                return False
    # other conditions must not depend on t
    for p in parts:
        if ta in p.fv and not (p.kind == 'eq' and not p.fv.isdisjoint(T._IXS[:n])):
            return False
    mp0 = {T._IXS[i]: subst(prev[i], {ta: ZERO}) for i in range(n)}
    STATS['prefix'] += 1
    t2 = T.fresh_lv('q')
    gt = subst(g, {ta: t2})
    base0 = subst(L.init, mp0)
    # base0/g may still mention ix of the untouched axes, and of the recursion axis through g: g's
    # recursion-axis index was written as a function of t
    for i in range(n):
        if tgt[i] is not None and ta in tgt[i].fv and T._IXS[i] in gt.fv:
            return False
    val = add(base0, T.bsum(t2, ZERO, s, gt))
    with using(ic.with_cond(c)):
        val = add(base0, T.bsum(t2, ZERO, s, gt))
    L.final = ite(c, val, L.init)
    L.before = lambda u: ite(c_and(c, c_ge(sub(sub(u, ONE), s))), val, L.init)
    return True


# ---------------------------------------------------------------- general recurrences

def _mk_rec(t, cnt, locs, exitc, ctx):
    """rec base args: (cnt, tuple of (shape or (), init, E), exit cond, exit values, which)"""
    locs = sorted(locs, key=lambda L: L.name)
    # arrays are closed by a lambda (one more binder) inside the recurrence
    d = max([L.E.depth for L in locs] + [cnt.depth] +
            ([exitc[0].depth] + [x.depth for x in exitc[1].values()] if exitc else [])) + 2
    tv = T.bv(d, 0)
    mp = {t.single(): tv}
    for i, L in enumerate(locs):
        mp[L.patom] = T.bv(d, i + 1)
    mp_raw = mp

    def close(x, shape):
        if shape is None:
            return T.subst_any(x, mp_raw)
        return T.subst_any(x, mp_raw)
    body = []
    for L in locs:
        E = close(L.E, L.shape)
        if L.shape is None:
            body.append(((), L.init, E))
        else:
            body.append((tuple(L.shape), lam(L.shape, L.init), lam(L.shape, E)))
    ex = None
    if exitc is not None:
        xs = []
        for L in locs:
            v = exitc[1].get(L.name, L.E)
            v = close(v, L.shape)
            xs.append(v if L.shape is None else lam(L.shape, v))
        ex = (close(exitc[0], None), tuple(xs))
    key = (cnt, tuple(body), ex or ())
    core = ('rec', d, len(locs)) + key
    for i, L in enumerate(locs):
        L.final = _rec_out(core, ('final', i), L.shape)
    if exitc is not None:
        exited = T.c_opaque('recexit', rec_base(core, ('exited', 0), ()))
        vals = {L.name: _rec_out(core, ('exit', i), L.shape) for i, L in enumerate(locs)}
        it = _rec_out(core, ('iter', 0), None)
        return exited, vals, it
    return None


def rec_base(core, which, shape):
    b = T.base('rec', core + (which,), shape)
    # bound variables of the recurrence are not free
    d, n = core[1], core[2]
    bound = {T.bv(d, i).single() for i in range(n + 1)}
    if not bound.isdisjoint(b.fv):
        b.fv = frozenset(b.fv - bound)
    if b.depth < d:
        b.depth = d
    return b


def _rec_out(core, which, shape):
    if shape is None:
        return ref(rec_base(core, which, ()))
    b = rec_base(core, which, shape)
    return ref(b, *[ix(i) for i in range(len(shape))])


def _subst_rec(b, S):
    """substitution below a rec base (called from terms._Sub.base)"""
    _, d, n, cnt, body, ex, which = b.args
    fr = [T.fresh_lv('r')] + [T.phi('r') for _ in range(n)]
    op = {T.bv(d, i).single(): fr[i] for i in range(n + 1)}

    def o(x):
        if isinstance(x, Lam):
            vs = T.lam_vars(x)
            f2 = [T.fresh_lv('x') for _ in vs]
            e = T.subst_any(x.elem, {v.single(): f for v, f in zip(vs, f2)})
            e = S.any(T.subst_any(e, op))
            return ('lam', [S.poly(q) for q in x.shape], e, f2)
        return S.any(T.subst_any(x, op))
    newcnt = S.poly(cnt)
    tmp = []
    for shape, init, E in body:
        tmp.append((tuple(S.poly(q) for q in shape), S.arg(init), o(E)))
    tex = None
    if ex:
        tex = (o(ex[0]), [o(x) for x in ex[1]])
    dep = [newcnt.depth]

    def depth(x):
        return x[2].depth + 1 if isinstance(x, tuple) else x.depth
    dd = max([newcnt.depth] + [depth(E) for _, _, E in tmp] +
             ([depth(tex[0])] + [depth(x) for x in tex[1]] if tex else [])) + 1
    cl = {fr[i].single(): T.bv(dd, i) for i in range(n + 1)}

    def c(x):
        if isinstance(x, tuple):
            return lam(x[1], T.subst_any(x[2], cl), x[3])
        return T.subst_any(x, cl)
    nb = tuple((sh, init, c(E)) for sh, init, E in tmp)
    nex = (c(tex[0]), tuple(c(x) for x in tex[1])) if tex else ()
    core = ('rec', dd, n, newcnt, nb, nex)
    return rec_base(core, which, tuple(S.poly(q) for q in b.shape))


T._subst_rec = _subst_rec


# evaluation of recurrences -----------------------------------------------------

def _eval_rec(ev, bs, idx, b):
    _, d, n, cnt, body, ex, which = bs.args
    key = ('R',) + tuple(sorted((a.id, v) for a, v in b.items() if a in bs.fv)) + (id(bs.args[4]), bs.args[3].id,
                                                                                 _exid(ex), d)
    res = ev.memo.get(key)
    if res is None:
        res = _run_rec(ev, d, n, cnt, body, ex, b)
        ev.memo[key] = res
    state, exited, exitstate, it = res
    if which[0] == 'exited':
        return 1 if exited else 0
    if which[0] == 'iter':
        return it
    st = (exitstate if which[0] == 'exit' else state)
    if st is None:
        return float('nan')
    v = st[which[1]]
    if isinstance(v, dict):
        r = v.get(tuple(idx))
        return float('nan') if r is None else r
    return v


def _exid(ex):
    return (ex[0].id, tuple(x.id for x in ex[1])) if ex else ()


def _run_rec(ev, d, n, cnt, body, ex, b):
    import itertools
    N = ev.int(cnt, b)
    tv = T.bv(d, 0).single()
    pv = [T.bv(d, i + 1).single() for i in range(n)]
    st = []
    for shape, init, E in body:
        if isinstance(init, Lam):
            st.append({i: v for i, v in ev.array_items(init, b)})
        else:
            st.append(ev.poly(init, b))
    if not hasattr(ev, 'arrays'):
        ev.arrays = {}
        ev.tok = 10 ** 9
    for it in range(N):
        bb = dict(b)
        bb[tv] = it
        for i, s in enumerate(st):
            if isinstance(s, dict):
                ev.tok += 1
                ev.arrays[ev.tok] = s
                bb[pv[i]] = ev.tok
            else:
                bb[pv[i]] = s
        if ex and ev.cond(ex[0], bb):
            xs = []
            for x in ex[1]:
                xs.append({i: v for i, v in ev.array_items(x, bb)} if isinstance(x, Lam) else ev.poly(x, bb))
            return None, True, xs, it
        new = []
        for shape, init, E in body:
            if isinstance(E, Lam):
                new.append({i: v for i, v in ev.array_items(E, bb)})
            else:
                new.append(ev.poly(E, bb))
        st = new
    return st, False, None, N


def _eval_phiarr(ev, bs, idx, b):
    a = bs.args[0].single()
    tok = b.get(a)
    arr = getattr(ev, 'arrays', {}).get(tok)
    if arr is None:
        from .evalt import Undecided
        raise Undecided('phi array')
    r = arr.get(tuple(idx))
    return float('nan') if r is None else r


from . import evalt as _E   # noqa: E402
_E.UNFOLD['rec'] = _eval_rec
_E.UNFOLD['phiarr'] = _eval_phiarr
_E.EVALCOND['recexit'] = lambda ev, c, b: bool(ev.element(c.args[1], (), b))
