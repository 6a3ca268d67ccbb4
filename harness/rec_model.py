"""Records model building histories."""
from rt import *
from satisfy import model as M, constraint as K, expression as X, objective as O, solver as S

JUNK = [3, None, 'x == 1', 1.5, object(), [True], lambda: True, X.Variable, ('a', 'b'), 0]


def show(d):
    return [enc(v) for v in d]


def record(case):
    m = M.Model()
    ev = []
    objs = {}

    def obs(**e):
        vs = m.variables()
        decls, doms, doms2, look = [], [], [], []
        for n, info in vs.items():
            par = info.domain is None
            decls.append([n, 'par' if par else 'var'])
            g = m.get_variable(n)
            look.append(g.name if g is info.variable and (n not in objs or objs[n] is g) else '?')
            if not par:
                doms.append(show(m.get_var_domain(n)))
                doms2.append(show(m.get_var_domain(g)))
        s = m.solvable()
        e.update(decls=decls, doms=doms, doms2=doms2, look=look, solv=1 if s is True else 0 if s is False else 2, ncons=len(list(m.constraints())))
        ev.append(e)

    def var(n):
        return objs[n] if n in objs else X.Variable(n)

    for c in case['prog']:
        op = c[0]
        out, name = 'ok', ''
        try:
            if op in ('addvar', 'addpar'):
                kw = {} if c[1] is None and case.get('nokw') else {'name': c[1]}
                if op == 'addpar':
                    v = m.add_parameter(c[3], **kw)
                elif c[3] == 'bool':
                    v = m.add_bool_variable(**kw)
                else:
                    d = c[4]
                    d = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[c[3]](d) if c[3] != 'range' else range(d[0], d[0] + len(d))
                    v = m.add_int_variable(d, **kw)
                name = v.name
                objs[name] = v
            elif op == 'addcon':
                k, over, how = c[1], c[2], c[3]
                if k == 'junk':
                    x = JUNK[how % len(JUNK)]
                    if 20 <= how < 40:           # not an expression to optimize
                        (O.Maximize if how % 3 else O.Minimize)(x)
                        k = 'ad'
                    elif how >= 40:              # not an objective
                        good = O.Minimize(objs[sorted(objs)[0]] if objs else X.Const(1))
                        for _ in S.Solver().optimize(m, [x, [x], [good, x], (good, good, x)][how % 4]): pass
                        k = 'ad'
                elif k in ('true', 'never'):
                    t = k == 'true'
                    x = [t, K.ConstConstraint(t), K.ExpressionConstraint(X.Const(int(t))), X.Const(2) > X.Parameter('q', 1 if t else 5),
                         K.AllDifferentConstraint([]) if t else False, X.Parameter('q', int(t)) & X.Const(3)][how % 6]
                elif k == 'ad':
                    x = None
                    if how % 2: m.add_all_different_constraint([var(n) for n in over])
                    else: m.add_constraint(K.AllDifferentConstraint(over))
                else:
                    e = var(over[0])
                    for n in over[1:]: e = e + var(n) if how % 3 else e - var(n)
                    e = (e > 0) if how % 2 else (e != how)
                    x = K.ExpressionConstraint(e) if how % 5 == 0 else e
                if k != 'ad': m.add_constraint(x)
            elif op == 'setsolv':
                m.set_solvable([False, True, 0, 1][c[1]])
            elif op == 'look':
                if c[1] == 0: m.get_variable(c[2])
                else: m.get_var_domain(c[2])
        except Exception as e:
            out = excname(e)
        if op == 'addvar':
            dom = [0, 1] if c[3] == 'bool' else c[4]
            obs(op=op, chosen=str(c[1]) if c[1] is not None else '', legal=c[2], dom=dom, ord=int(c[3] not in ('set', 'frozenset')), out=out, name=name)
        elif op == 'addpar':
            obs(op=op, chosen=str(c[1]) if c[1] is not None else '', legal=c[2], out=out, name=name)
        elif op == 'addcon':
            obs(op=op, kind='vars' if c[1] == 'ad' else c[1], over=c[2], out=out)
        elif op == 'setsolv':
            obs(op=op, v=c[1] % 2, out=out)
        else:
            obs(op=op, out=out)
    return {'id': case['id'], 'events': ev}
