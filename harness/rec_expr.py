"""Records formula sessions on the real expressions."""
from rt import *
install_clock()
from satisfy import expression as X, constraint as K


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        v = v + 0.0
    s = repr(v)
    return s if len(s) < 200 else 'len%d:%s..%s' % (len(s), s[:60], s[-60:])


def outcome(f):
    try:
        with guard(20):
            v = f()
        return 'ok:' + num(v), v
    except Hang:
        return 'hang', None
    except Exception as e:
        return excname(e), None


def bigast(a):
    if a[0] in ('i', 'c'): return [a[0].upper(), bigenc(a[1])]
    if a[0] in ('v', 'p'): return a
    if a[0] in ('sum', 'prod'): return [a[0], bigenc(a[1]), [bigast(x) for x in a[2]]]
    return [a[0]] + [bigast(x) for x in a[1:]]


def truth(f):
    try:
        with guard(20):
            return 'ok:%d' % bool(f())
    except Hang:
        return 'hang'
    except Exception as e:
        return excname(e)


def life(k, s):
    """a constraint evaluated through its life: [is_compiled, outcome] after each step"""
    out = [[int(bool(k.is_compiled())), truth(lambda: k.evaluate(s))]]
    for step in (k.compile, k.decompile, k.compile, k.compile, k.decompile, k.decompile):
        step()
        out.append([int(bool(k.is_compiled())), truth(lambda: k.evaluate(s))])
    out.append([2, truth(lambda: k.evaluate_function()(**s))])
    k.decompile()
    return out


def tree(e):
    """the structure of an expression, through its public interface"""
    k = type(e).__name__
    if isinstance(e, X.Const):
        return dict(k=k, n=enc(e.value), s='', c=[])
    if isinstance(e, X.Variable):
        return dict(k=k, n=0, s=e.name, c=[])
    return dict(k=k, n=enc(getattr(e, 'const', 0)), s='', c=[tree(x) for x in e])


def record(case):
    ev = []
    names = case['names']
    idx = {n: k + 1 for k, n in enumerate(names)}
    var = [X.Variable(n) for n in names]
    par = [X.Parameter(n, 0) for n in case['pnames']]

    def ind(vs):
        return [idx.get(getattr(v, 'name', v), 0) for v in vs]

    def sub(asg, ks=None):
        return {n: asg[k] for k, n in enumerate(names) if ks is None or k + 1 in ks}

    def mk(ast):
        e = build(ast, var, par)
        return e if isinstance(e, X.Expression) else X.Const(e)

    memo = {}

    def again(ast, inplace):
        e = build(ast, var, par, memo, inplace)
        return e if isinstance(e, X.Expression) else X.Const(e)

    def probe(e, ast, asgs, parts, mk):
        d = dict(op='expr', ast=ast, asgs=asgs, iok=[], iv=[], io=[], co=[], xo=[], yo=[], ro=[], ko=[], kc=[], lo=[], to=[], so=[], frees=[], uns=[])
        f = e.as_function()
        g = e.as_function()
        k1, k2 = K.ExpressionConstraint(mk(ast)), K.ExpressionConstraint(mk(ast))
        k2.compile()
        k3 = K.ExpressionConstraint(mk(ast))
        d['vars'] = ind(e.vars())
        d['cvars'] = ind(k1.vars())
        for asg in asgs:
            s = sub(asg)
            x = dict(s, zz_other=7, **{n + '_': 9 for n in names if n + '_' not in idx})
            o, v = outcome(lambda: e.evaluate(s))
            d['io'].append(o); d['iok'].append(int(o.startswith('ok'))); d['iv'].append(enc(v))
            d['co'].append(outcome(lambda: f(**s))[0])
            d['ro'].append(outcome(lambda: g(**s))[0])
            d['xo'].append(outcome(lambda: e.evaluate(x))[0])
            d['yo'].append(outcome(lambda: f(**x))[0])
            d['ko'].append(truth(lambda: k1.evaluate(s)))
            d['kc'].append(truth(lambda: k2.evaluate(s)))
            d['to'].append(truth(lambda: e.evaluate(s)))
            d['lo'].append(life(k3, s))
            d['so'].append(outcome(lambda: e.evaluate({n: s[n] for n in e.vars() if n in s}))[0])
        for n, (asg, ks) in enumerate(parts):
            s = sub(asg, ks)
            d['frees'].append([ks, ind(e.free_vars(s))])
            k = k2 if n % 2 else k1
            try:
                u = int(bool(k.unsatisfied(s)))
            except Exception:
                u = 2
            d['uns'].append([ks, asg, u, ind(k.free_vars(s))])
        ev.append(d)

    now = [0] * len(par)
    for cmd in case['prog']:
        op = cmd[0]
        try:
            if op == 'pars':
                now = cmd[1]
                for p, v in zip(par, cmd[1]):
                    p.value = v
                ev.append(dict(op='pars', vals=[enc(v) for v in cmd[1]]))
            elif op == 'bigexpr':
                _, ast, asgs = cmd
                d = dict(op='bigexpr', ast=bigast(ast), asgs=[[bigenc(v) for v in a] for a in asgs], par=[bigenc(v) for v in now],
                         iok=[], iv=[], io=[], co=[], ko=[], kc=[])
                try:
                    e = mk(ast)
                except ZeroDivisionError:
                    continue             # writing down a division by a constant zero may raise at once
                f = e.as_function()
                k1, k2 = K.ExpressionConstraint(e), K.ExpressionConstraint(e)
                k2.compile()
                for asg in asgs:
                    s = sub(asg)
                    o, v = outcome(lambda: e.evaluate(s))
                    d['io'].append(o); d['iok'].append(int(o.startswith('ok'))); d['iv'].append(bigenc(v))
                    d['co'].append(outcome(lambda: f(**s))[0])
                    d['ko'].append(truth(lambda: k1.evaluate(s)))
                    d['kc'].append(truth(lambda: k2.evaluate(s)))
                ev.append(d)
            elif op == 'expr':
                _, ast, asgs, parts = cmd
                try:
                    e = mk(ast)
                except Exception as x:
                    ev.append(dict(op='exprfail', asts=[ast], asgs=asgs, out=excname(x)))
                    continue
                probe(e, ast, asgs, parts, mk)
            elif op == 'shared':
                # all are built, out of expressions used before, before any of them is looked at
                built = []
                for ast, asgs, parts in cmd[1]:
                    try:
                        built.append(again(ast, cmd[2]))
                    except Exception as x:
                        built.append(None)
                        ev.append(dict(op='exprfail', asts=[ast], asgs=asgs, out=excname(x)))
                for e, (ast, asgs, parts) in zip(built, cmd[1]):
                    if e is not None: probe(e, ast, asgs, parts, lambda t: e)
            elif op == 'con':
                _, con, parts = cmd
                if con[0] == 'ad':
                    k = K.AllDifferentConstraint([names[i - 1] for i in con[1]])
                else:
                    k = K.ConstConstraint(bool(con[1]))
                d = dict(op='con', con=con, cvars=ind(k.vars()), uns=[])
                for asg, ks in parts:
                    s = sub(asg, ks)
                    try:
                        u = int(bool(k.unsatisfied(s)))
                    except Exception:
                        u = 2
                    d['uns'].append([ks, asg, u, ind(k.free_vars(s))])
                ev.append(d)
            elif op == 'eq':
                _, a, b, asgs = cmd
                try:
                    x, y = (again(a, False), again(b, False)) if case.get('shared') else (mk(a), mk(b))
                except Exception as z:
                    ev.append(dict(op='exprfail', asts=[a, b], asgs=asgs or [[0] * len(names)], out=excname(z)))
                    continue
                def eq(p, q):
                    try:
                        r = p.equals(q)
                        return 1 if r is True else 0 if r is False else int(bool(r))
                    except Exception:
                        return 2
                ev.append(dict(op='eq', a=a, b=b, r=eq(x, y), rr=eq(x, x), ta=tree(x), tb=tree(y), asgs=asgs))
        except Exception as x:
            ev.append(dict(op='fail', cmd=op, exc=excname(x), msg=str(x)[:200]))
            break
    return {'id': case['id'], 'events': ev}
