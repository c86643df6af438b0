"""Equality of terms up to algebra: rounding noise in coefficients, common denominators,
log/exp/root identities.  Everything here rewrites a term into an equal one (given the facts of
the current path); what is left over goes to the solver."""
from fractions import Fraction

from . import terms as tm
from .terms import Poly, T, ZERO, INF, atom_interval, const, inv, let

EPS = Fraction(1, 10**11)


def diff(p, w):
    """p - w with coefficients that agree to 1e-11 treated as equal."""
    t = {}
    for m in set(p.t) | set(w.t):
        a, b = p.t.get(m, Fraction(0)), w.t.get(m, Fraction(0))
        d = a - b
        if d and abs(d) > EPS * max(abs(a), abs(b)):
            t[m] = d
    return Poly(t)


def positive(p, eng=None):
    lo, hi = p.interval()
    if lo > 0:
        return True
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and len(m) == 1 and T.atoms[m[0][0]].kind == 'let':
            if positive(T.atoms[m[0][0]].args[0], eng):
                return True
    if eng is not None and not p.is_const():
        m, op, v = eng.norm(p, '>')
        if eng.implied(m, op, v) is True:
            return True
    return False


class Big(Exception):
    pass


def _acc(acc, m, c, g):
    o = acc.get(m)
    acc[m] = (c, g) if o is None else (o[0] + c, o[1] + g)


def _mul(A, B, limit):
    """Product of two {monomial: (coefficient, magnitude)} maps."""
    if len(A) * len(B) > limit * 8:
        raise Big()
    out = {}
    for m1, (c1, g1) in A.items():
        for m2, (c2, g2) in B.items():
            m, extra = tm.mono_mul(m1, m2)
            if extra is None:
                _acc(out, m, c1 * c2, g1 * g2)
            else:
                P = {m: (c1 * c2, g1 * g2)}
                for q, n in extra:
                    Q = {k: (c, abs(c)) for k, c in q.t.items()}
                    for _ in range(n):
                        P = _mul(P, Q, limit)
                for k, (c, g) in P.items():
                    _acc(out, k, c, g)
    return _trim(out, limit)


def _trim(A, limit):
    A = {m: v for m, v in A.items() if v[0] and abs(v[0]) > EPS * v[1]}
    if len(A) > limit:
        raise Big()
    return A


def _expand(A, limit):
    for _ in range(60):
        target = None
        for m in A:
            for a, e in m:
                if e > 0 and T.atoms[a].kind == 'let':
                    target = a if target is None else max(target, a)
        if target is None:
            return A
        body = {m: (c, abs(c)) for m, c in T.atoms[target].args[0].t.items()}
        out = {}
        for m, v in A.items():
            e = dict(m).get(target, 0)
            if e > 0:
                P = {tuple((a, k) for a, k in m if a != target): v}
                for _ in range(e):
                    P = _mul(P, body, limit)
                for m2, (c, g) in P.items():
                    _acc(out, m2, c, g)
            else:
                _acc(out, m, *v)
        A = _trim(out, limit)
    raise Big()


def clear(p, limit=3000):
    """Numerator of p over a common denominator, fully expanded (None when too large)."""
    try:
        A = {m: (c, abs(c)) for m, c in p.t.items()}
        for _ in range(14):
            A = _expand(A, limit)
            den = {}
            for m in A:
                for a, e in m:
                    if e < 0:
                        den[a] = max(den.get(a, 0), -e)
            if not den:
                return Poly({m: c for m, (c, g) in A.items()})
            lets = {a: e for a, e in den.items() if T.atoms[a].kind == 'let'} or den
            A = _mul(A, {tuple(sorted(lets.items())): (Fraction(1), Fraction(1))}, limit)
    except Big:
        pass
    return None


def rewrite(p, f):
    """Apply f to every atom (bottom-up over monomials); f(atom) -> Poly or None."""
    out = ZERO
    for m, c in p.t.items():
        q = const(c)
        for a, e in m:
            r = f(a)
            if r is None:
                r = tm.atom_poly(a)
            if e < 0:
                r = inv(r)
            for _ in range(abs(e)):
                q = q.mul(r)
        out = out.add(q)
    return out


def strong(p, eng, cache=None, depth=0):
    """Normal form: log of a product -> sum of logs, roots of products split, exp of sums merged,
    let-denominators factored; arguments normalised recursively."""
    if cache is None:
        cache = {}

    def f(a):
        if a in cache:
            return cache[a]
        at = T.atoms[a]
        r = None
        if at.kind == 'let':
            b = strong(at.args[0], eng, cache, depth + 1)
            r = b if len(b.t) <= 1 else let(b)
        elif at.kind == 'fn' and at.name == 'log':
            b = strong(at.args[0], eng, cache, depth + 1)
            r = split_log(b, eng)
        elif at.kind == 'fn' and at.name == 'root':
            b = strong(at.args[0], eng, cache, depth + 1)
            r = split_root(b, at.meta, eng)
        elif at.kind == 'fn' and at.name in ('exp', 'sin', 'cos', 'floor'):
            b = strong(at.args[0], eng, cache, depth + 1)
            if b.is_const():
                import math
                r = const(getattr(math, at.name)(float(b.const())))
            else:
                r = tm.fn(at.name, b)
        elif at.kind == 'fn' and at.name in ('max', 'min'):
            x, y = [strong(q, eng, cache, depth + 1) for q in at.args]
            d = diff(x, y)
            v = None
            if d.is_const():
                v = d.const() >= 0
            else:
                for u in (d, at.args[0].sub(at.args[1])):
                    if v is None and eng is not None and not u.is_const():
                        v = eng.order(u)
            if v is not None:
                r = x if v == (at.name == 'max') else y
            elif [x, y] != list(at.args):
                from .engine import ext_term
                r = ext_term(x, y, at.name)
        elif at.kind in ('fn', 'uf') and at.args:
            bs = [strong(x, eng, cache, depth + 1) for x in at.args]
            if bs != list(at.args):
                r = tm.atom_poly(T.get(at.kind, at.name, bs, at.lo, at.hi, at.meta))
        cache[a] = r
        return r
    p = rewrite(p, f)
    return merge_exp(p)


def merge_exp(p):
    t = {}
    ch = False
    for m, c in p.t.items():
        ex = [(a, e) for a, e in m if T.atoms[a].kind == 'fn' and T.atoms[a].name == 'exp']
        if len(ex) > 1 or (ex and ex[0][1] != 1):
            s = ZERO
            for a, e in ex:
                s = s.add(T.atoms[a].args[0].scale(Fraction(e)))
            rest = Poly({tuple(x for x in m if x not in ex): c})
            if s.is_const():
                import math
                q = rest.scale(tm.snap(math.exp(float(s.const()))))
            else:
                q = rest.mul(tm.fn('exp', s))
            ch = True
        else:
            q = Poly({m: c})
        for m2, c2 in q.t.items():
            v = t.get(m2, 0) + c2
            if v:
                t[m2] = v
            else:
                t.pop(m2, None)
    return Poly(t) if ch else p


def power(b, eng):
    """b as a power: (r, n) with b = r^n, n >= 2 and r > 0 on this path, or None."""
    if not 3 <= len(b.t) <= 60:
        return None
    deg = {}
    for m in b.t:
        for a, e in m:
            deg[a] = max(deg.get(a, 0), e)
    for x, n in sorted(deg.items(), key=lambda i: i[1]):
        if n < 2:
            continue
        top = [(m, c) for m, c in b.t.items() if (x, n) in m]
        nxt = {tuple(i for i in m if i[0] != x): c for m, c in b.t.items() if (x, n - 1) in m}
        if len(top) != 1 or not nxt or top[0][1] <= 0:
            continue
        k = tuple(i for i in top[0][0] if i[0] != x)
        if any(e % n for a, e in k):
            continue
        c = top[0][1]
        q = tm.snap(float(c) ** (1.0 / n))
        head = Poly({tuple((a, e // n) for a, e in k): q})
        L = Poly({k: c})
        r = head.mul(tm.atom_poly(x)).add(head.mul(Poly(nxt)).mul(inv(L)).scale(Fraction(1, n)))
        if len(r.t) < 2 or len(r.t) > 8:
            continue
        f = r
        for _ in range(n - 1):
            f = f.mul(r)
        d = diff(f, b)
        if d.t:
            continue
        if positive(r, eng):
            return r, n
        if n % 2 == 0 and positive(r.neg(), eng):
            return r.neg(), n
    return None


def split_log(b, eng):
    import math
    if b.is_const():
        return const(math.log(float(b.const()))) if b.const() > 0 else tm.fn('log', b)
    if len(b.t) > 1:
        # take out a common monomial / the leading coefficient
        k = tm.lead(b)
        if k > 0 and k != 1:
            return const(math.log(float(k))).add(split_log(b.scale(1 / k), eng))
        g = lowest(b)
        if g is not None:
            gp = Poly({g: Fraction(1)})
            if positive(gp, eng):
                return split_log(gp, eng).add(split_log(b.mul(inv(gp)), eng))
        w = power(b, eng)
        if w is not None:
            return split_log(w[0], eng).scale(Fraction(w[1]))
        return tm.fn('log', b)
    (m, c), = b.t.items()
    if c <= 0:
        return tm.fn('log', b)
    for a, e in m:
        if not positive(tm.atom_poly(a), eng):
            return tm.fn('log', b)
    s = const(math.log(float(c))) if c != 1 else ZERO
    for a, e in m:
        at = T.atoms[a]
        if at.kind == 'fn' and at.name == 'exp':
            l = at.args[0]
        elif at.kind == 'fn' and at.name == 'root':
            l = split_log(at.args[0], eng).scale(Fraction(1, at.meta))
        elif at.kind == 'let':
            l = split_log(at.args[0], eng)
        else:
            l = tm.fn('log', tm.atom_poly(a))
        s = s.add(l.scale(Fraction(e)))
    return s


def common(b):
    it = iter(b.t)
    d = dict(next(it))
    for m in it:
        e = dict(m)
        for a in list(d):
            if a in e and (d[a] > 0) == (e[a] > 0):
                d[a] = min(d[a], e[a], key=abs)
            else:
                del d[a]
        if not d:
            return None
    return tuple(sorted(d.items())) if d else None


def lowest(b):
    """The monomial with every atom's lowest power in b: common factors and denominators."""
    d = {}
    for m in b.t:
        for a, e in m:
            d[a] = min(d.get(a, e), e)
    for m in b.t:
        have = dict(m)
        for a in d:
            if a not in have and d[a] > 0:
                d[a] = 0
    d = {a: e for a, e in d.items() if e}
    return tuple(sorted(d.items())) if d else None


def split_root(b, k, eng):
    if b.is_const():
        return tm.root(b, k)
    if len(b.t) > 1:
        l = tm.lead(b)
        if l > 0 and l != 1:
            return const(float(l) ** (1.0 / k)).mul(split_root(b.scale(1 / l), k, eng))
        g = common(b)
        if g is not None:
            gp = Poly({g: Fraction(1)})
            if positive(gp, eng):
                return split_root(gp, k, eng).mul(split_root(b.mul(inv(gp)), k, eng))
        w = power(b, eng)
        if w is not None:
            r = w[0].powi(w[1] // k) if w[1] >= k else const(1)
            return r.mul(split_root(w[0], k, eng).powi(w[1] % k)) if w[1] % k else r
        return tm.root(b, k)
    (m, c), = b.t.items()
    if c < 0:
        return tm.root(b, k)
    if len(m) == 1 and m[0][1] % k == 0 and k % 2 == 1:
        pass
    for a, e in m:
        if not positive(tm.atom_poly(a), eng):
            return tm.root(b, k)
    r = const(float(c) ** (1.0 / k)) if c != 1 else const(1)
    for a, e in m:
        at = T.atoms[a]
        if at.kind == 'fn' and at.name == 'exp':
            r = r.mul(tm.fn('exp', at.args[0].scale(Fraction(e, k))))
        elif at.kind == 'fn' and at.name == 'root':
            r = r.mul(tm.root(at.args[0], k * at.meta).powi(e) if e > 0 else inv(tm.root(at.args[0], k * at.meta).powi(-e)))
        else:
            x = tm.root(tm.atom_poly(a), k)
            n, rem = divmod(abs(e), k)
            y = tm.atom_poly(a).powi(n).mul(x.powi(rem)) if rem else tm.atom_poly(a).powi(n)
            r = r.mul(y if e > 0 else inv(y))
    return r


def simplify(d, eng, p=None, w=None):
    """ZERO when algebra settles that d = p - w is zero on this path; otherwise an equal term."""
    try:
        r = clear(d)
        if r is not None and not r.t:
            return ZERO
        if p is None:
            s = strong(d, eng)
        else:
            cache = {}
            s = diff(strong(p, eng, cache), strong(w, eng, cache))
        if not s.t:
            return ZERO
        r2 = clear(s)
        if r2 is not None and not r2.t:
            return ZERO
        if len(s.t) < len(d.t):
            return s
    except (RecursionError, ArithmeticError):
        pass
    return d


_ext = {}


def has_ext(i):
    """Does the atom depend on a merged max/min term?"""
    r = _ext.get(i)
    if r is None:
        a = T.atoms[i]
        r = (a.kind == 'fn' and a.name in ('max', 'min')) or any(has_ext(j) for q in a.args for j in q.atoms())
        _ext[i] = r
    return r


def resolve(p, eng, cache):
    """Replace the max/min terms whose order the path has settled since they were built."""
    if not any(has_ext(a) for a in p.atoms()):
        return p

    def f(a):
        if not has_ext(a):
            return None
        if a in cache:
            return cache[a]
        at = T.atoms[a]
        xs = [resolve(q, eng, cache) for q in at.args]
        r = None
        if at.kind == 'fn' and at.name in ('max', 'min'):
            v = None
            for d in (xs[0].sub(xs[1]), at.args[0].sub(at.args[1])):
                if d.is_const():
                    v = d.const() >= 0
                elif v is None:
                    v = eng.order(d)
            if v is not None:
                r = xs[0] if v == (at.name == 'max') else xs[1]
        if r is None and xs != list(at.args):
            if at.kind == 'let':
                r = let(xs[0])
            elif at.kind == 'fn' and at.name in ('max', 'min'):
                from .engine import ext_term
                r = ext_term(xs[0], xs[1], at.name)
            elif at.kind == 'fn' and at.name == 'root':
                r = tm.root(eng.rep(xs[0]), at.meta)
            elif all(x.is_const() for x in xs) and at.kind == 'fn' and at.name in ('exp', 'log', 'sin', 'cos'):
                import math
                r = const(getattr(math, at.name)(float(xs[0].const())))
            else:
                xs = [eng.rep(x) for x in xs]
                r = tm.atom_poly(T.get(at.kind, at.name, xs, at.lo, at.hi, at.meta))
        cache[a] = r
        return r
    return rewrite(p, f)
