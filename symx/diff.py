"""Symbolic derivative of a path's result with respect to one input."""
from fractions import Fraction

from . import terms as tm
from .terms import T, Poly, ZERO, const, atom_poly, atom_interval


class NotSmooth(Exception):
    pass


def d_atom(i, v, memo):
    r = memo.get(i)
    if r is not None:
        return r
    a = T.atoms[i]
    if a.kind == 'var':
        r = const(1) if i == v else ZERO
    elif a.kind == 'let':
        r = d_poly(a.args[0], v, memo)
    else:
        g = [d_poly(p, v, memo) for p in a.args]
        if all(not x.t for x in g):
            r = ZERO
        elif a.kind != 'fn':
            raise NotSmooth(a.name)
        elif a.name in ('max', 'min'):
            # (a case split of the present path; the term is continuous where the cases meet)
            from . import engine as E
            first = bool(E.mk(a.args[0]) > E.mk(a.args[1]))
            r = g[0] if first == (a.name == 'max') else g[1]
        elif a.name == 'exp':
            r = g[0].mul(atom_poly(i))
        elif a.name == 'log':
            r = g[0].mul(tm.inv(a.args[0]))
        elif a.name == 'root':
            k = a.meta
            # x = y^(1/k): x' = y' x / (k y)
            r = g[0].mul(atom_poly(i)).mul(tm.inv(a.args[0])).scale(Fraction(1, k)) if k != 2 else \
                g[0].mul(Poly({((i, -1),): Fraction(1, 2)}))
        elif a.name == 'sin':
            r = g[0].mul(tm.fn('cos', a.args[0]))
        elif a.name == 'cos':
            r = g[0].mul(tm.fn('sin', a.args[0])).neg()
        else:
            raise NotSmooth(a.name)
    memo[i] = r
    return r


def d_poly(p, v, memo=None):
    memo = {} if memo is None else memo
    out = ZERO
    for m, c in p.t.items():
        for j, (a, e) in enumerate(m):
            da = d_atom(a, v, memo)
            if not da.t:
                continue
            rest = list(m)
            if e == 1:
                rest.pop(j)
            else:
                rest[j] = (a, e - 1)
            out = out.add(Poly({tuple(rest): c * e}).mul(da))
    return out


def expand(p):
    """Definitions (let) with positive powers written out."""
    for _ in range(50):
        hit = None
        for m in p.t:
            for a, e in m:
                if e > 0 and T.atoms[a].kind == 'let':
                    hit = a
        if hit is None:
            return p
        q = T.atoms[hit].args[0]
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.get(hit, 0)
            if e > 0:
                d.pop(hit)
                t = Poly({tuple(sorted(d.items())): c})
                for _ in range(e):
                    t = t.mul(q)
                out = out.add(t)
            else:
                out = out.add(Poly({m: c}))
        p = out
    return p


def clear(p):
    """Multiply by positive denominators; the sign stays."""
    for _ in range(60):
        hit = None
        for m in p.t:
            for a, e in m:
                if e < 0:
                    lo, hi = atom_interval(a)
                    if lo > 0:
                        hit, s = (a, -e), 1
                    elif hi < 0:
                        hit, s = (a, -e + (-e) % 2), 1
        if hit is None:
            return p
        a, k = hit
        at = T.atoms[a]
        k = max(-e for m in p.t for b, e in m if b == a and e < 0)
        if atom_interval(a)[1] < 0 and k % 2:
            k += 1
        q = at.args[0] if at.kind == 'let' else None
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, 0) + k
            t = Poly({tuple(sorted(d.items())): c})
            if q is None:
                f = ZERO
                ex = []
                mm = tm.norm_mono({a: e}, ex)
                f = Poly({mm: Fraction(1)})
                for g, n in ex:
                    f = f.mul(g.powi(n))
                t = t.mul(f)
            else:
                for _ in range(e):
                    t = t.mul(q)
            out = out.add(t)
        p = expand(out)
    return p


def subst(p, v, val, memo=None):
    """p with the variable v replaced by the number val."""
    from . import engine as E
    memo = {} if memo is None else memo

    def at(i):
        r = memo.get(i)
        if r is None:
            a = T.atoms[i]
            if i == v:
                r = const(val)
            elif a.kind == 'var':
                r = atom_poly(i)
            else:
                g = [sub(x) for x in a.args]
                if all(x == y for x, y in zip(g, a.args)):
                    r = atom_poly(i)
                elif a.kind == 'let':
                    r = g[0]
                elif a.kind == 'uf':
                    r = atom_poly(T.get('uf', a.name, tuple(g), a.lo, a.hi))
                elif a.name == 'root':
                    r = E.lift(E.root_(E.mk(g[0]), a.meta))
                elif a.name in ('max', 'min'):
                    r = E.lift(E.extremum(E.mk(g[0]), E.mk(g[1]), a.name))
                elif a.name in ('exp', 'log', 'sin', 'cos'):
                    r = E.lift(getattr(E, a.name + '_')(E.mk(g[0])))
                else:
                    raise NotSmooth(a.name)
            memo[i] = r
        return r

    def sub(q):
        out = ZERO
        for m, c in q.t.items():
            t = const(1)
            for a, e in m:
                x = at(a)
                t = t.mul(x.powi(e) if e > 0 else tm.inv(x).powi(-e))
            out = out.add(t.scale(c))
        return out
    return sub(p)
