"""Executes session programs on the real library and records their events."""
from rt import *
install_clock()
from satisfy import model as M, solver as S, objective as O, constraint as K, expression as X, utils as U

STEP = 120          # seconds of real time one request may take
POLICIES = ['ORDERED', 'REVERSED', 'RANDOM', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT']


def short(tk):
    return tk if len(tk) <= 4000 else tk[:3999] + [sum(tk[3999:])]


class Ctx:
    """a model and what the program knows about it"""
    def __init__(self):
        self.model = M.Model()
        self.names, self.var, self.par, self.parvals = [], [], [], []
        self.cache = {}


class Fault(Exception):
    """an evaluation that fails because the program says so"""


HOOK = dict(after=0, do=None)     # what happens at one of the evaluations to come


class TickConstraint(K.Constraint):
    """a user-defined constraint: each evaluation takes time"""
    def __init__(self, run, ast, names, costs, kind):
        self.run, self.ast, self.names, self.costs, self.kind, self.n = run, ast, names, costs, kind, 0
        ks = sorted(set(ast[1])) if kind == 'ad' else sorted(vars_of(ast))
        self.ks = ks
        super().__init__([names[k - 1] for k in ks])

    def evaluate(self, substitution):
        cost = self.costs[self.n % len(self.costs)]
        self.n += 1
        if CLOCK.log is not None:
            CLOCK.log.append(cost)
        CLOCK.tick(cost)
        if HOOK['after']:
            HOOK['after'] -= 1
            if not HOOK['after']:
                HOOK['do']()
        if self.kind == 'ad':
            vals = [substitution[self.names[k - 1]] for k in self.ks]
            return len(set(vals)) == len(vals)
        asg = [substitution[n] if k + 1 in self.ks else None for k, n in enumerate(self.names)]
        return pyev(self.ast, asg, self.run.parvals)


def lim_in(v):
    return None if v == -1 else U.INFINITY if v == -3 else v


def lim_ev(v):
    return -1 if v == -3 else v


def to_in(v, half):
    return None if v == -1 else U.INFINITY if v == -3 else v + 0.5 if half else v


class Run:
    def __init__(self, case):
        self.case = case
        self.ev = []
        CLOCK.reset()
        CLOCK.auto = case.get('auto', 0)      # time that passes with every look at the clock
        self.spent = {}
        self.models = [Ctx()]
        self.cur = 1
        self.kept = {}
        self.wrappers = {}
        self.solvers, self.gens, self.last, self.cap = [], [], {}, case.get('cap', 2000)
        self.gsolver = []
        self.dead = False
        self.failed = 0
        HOOK.update(after=0, do=None)

    # -- the current model
    @property
    def ctx(self):
        return self.models[self.cur - 1]

    model = property(lambda self: self.ctx.model)
    names = property(lambda self: self.ctx.names)
    var = property(lambda self: self.ctx.var)
    par = property(lambda self: self.ctx.par)
    parvals = property(lambda self: self.ctx.parvals)

    def c_use(self, m):
        while len(self.models) < m:
            self.models.append(Ctx())
            self.ev.append(dict(op='model', m=len(self.models)))
        self.cur = m

    # -- helpers
    def con(self, c, wrap=None):
        if wrap:
            return TickConstraint(self.ctx, c[1] if c[0] == 'e' else c, self.names, wrap, c[0])
        if c[0] == 'e':
            e = build(c[1], self.var, self.par)
            return e if isinstance(e, (X.Expression, bool)) else X.Const(e)
        if c[0] == 'ad':
            return K.AllDifferentConstraint([self.names[k - 1] for k in c[1]])
        return bool(c[1])

    def again(self, kind, key, make, reuse):
        """the object made for the same description before, when the program reuses objects"""
        if not reuse:
            return make()
        k = kind + json.dumps(key)
        if k not in self.ctx.cache:
            self.ctx.cache[k] = make()
        return self.ctx.cache[k]

    def addcon(self, c, wrap, reuse=False):
        if c[0] == 'ad' and not wrap:
            self.model.add_all_different_constraint([self.var[k - 1] for k in c[1]])
            return 0
        x = self.again('m', [c, wrap], lambda: self.con(c, wrap), reuse)
        self.model.add_constraint(x)
        return int(c[0] == 'e' and not wrap and not (isinstance(x, X.Expression) and tuple(x.vars())))

    def extra(self, cs, reuse=False):
        def make(c, wrap):
            x = self.con(c, wrap)
            if isinstance(x, bool):
                x = K.ConstConstraint(x)
            elif isinstance(x, X.Expression):
                x = K.ExpressionConstraint(x)
            return x
        return [self.again('x', [c, wrap], lambda: make(c, wrap), reuse) for c, wrap in cs]

    def args(self, a):
        kw = {}
        if a.get('pol'):
            kw['var_selection_policy'] = S.VarSelectionPolicy[a['pol']]
        if a.get('lim', -2) != -2:
            kw['limit'] = lim_in(a['lim'])
        if a.get('to', -2) != -2:
            kw['timeout'] = to_in(a['to'], a.get('half'))
        if a.get('extra'):
            kw['additional_constraints'] = self.extra(a['extra'], a.get('reuse'))
            if a.get('extra_as') == 'tuple':
                kw['additional_constraints'] = tuple(kw['additional_constraints'])
            elif a.get('extra_as') == 'iter':
                kw['additional_constraints'] = iter(kw['additional_constraints'])
        return kw

    def objs(self, a):
        def make(sign, ast):
            e = build(ast, self.var, self.par)
            if not isinstance(e, X.Expression):
                e = X.Const(e)
            return (O.Maximize if sign == 1 else O.Minimize)(e)
        out = [self.again('o', [sign, ast], lambda: make(sign, ast), a.get('reuse')) for sign, ast in a['objs']]
        if a.get('objlist') == 'iter':
            return iter(out)
        return out[0] if len(out) == 1 and not a.get('objlist') else out

    def emit(self, **e):
        self.ev.append(dict(e, m=self.cur))

    def evargs(self, a):
        return dict(s=a['s'], pol=a.get('pol', ''), lim=lim_ev(a.get('lim', -2)), to=lim_ev(a.get('to', -2)),
                    extra=[c for c, w in a.get('extra', [])], objs=a.get('objs', []))

    # -- commands
    def c_addvar(self, name, dom, kind='list', bool_=False):
        dom = [int(str(v)) for v in dom]          # distinct objects, as read from a file
        if kind == 'range':
            step = dom[1] - dom[0] if len(dom) > 1 else 1
            d = range(dom[0], dom[-1] + (1 if step > 0 else -1), step) if dom else range(0)
        elif kind == 'keys':
            d = dict.fromkeys(dom)
        else:
            d = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[kind](dom)
        if bool_:
            v = self.model.add_bool_variable(name=name)
        else:
            v = self.model.add_int_variable(d, name=name)
        self.var.append(v)
        self.names.append(v.name)
        self.emit(op='addvar', name=v.name, dom=list(dom), ord=int(kind not in ('set', 'frozenset')))

    def c_addpar(self, name, v):
        p = self.model.add_parameter(v, name=name)
        self.par.append(p)
        self.parvals.append(v)
        self.emit(op='addpar', v=v, back=[enc(p.value) for p in self.par])

    def c_setpar(self, k, v):
        self.par[k - 1].value = v
        self.parvals[k - 1] = v
        self.emit(op='setpar', k=k, v=v, back=[enc(p.value) for p in self.par])

    def c_addcon(self, c, wrap=None, reuse=False):
        self.emit(op='addcon', con=c, novars=self.addcon(c, wrap, reuse))

    def c_setsolv(self, v):
        self.model.set_solvable(bool(v))
        self.emit(op='setsolv', v=v)

    def c_solver(self, a):
        kw = self.args(a)
        if 'comp' in a:
            kw['compile_constraints'] = a['comp']
        self.solvers.append(S.Solver(**kw))
        self.emit(op='solver', pol=a.get('pol') or 'GROUPS', lim=max(lim_ev(a.get('lim', -1)), -1), to=max(lim_ev(a.get('to', -1)), -1),
                  comp=int(bool(a.get('comp', True))))

    def c_set(self, s, attr, v, bad=None):
        obj = self.solvers[s - 1]
        out, ok = 'ok', 1
        try:
            if attr == 'pol':
                if bad is not None:
                    ok = 0
                    obj.var_selection_policy = bad if bad != 'None' else None
                else:
                    obj.var_selection_policy = S.VarSelectionPolicy[v]
            elif attr == 'lim':
                obj.limit = lim_in(v)
            elif attr == 'to':
                obj.timeout = lim_in(v)
            elif attr == 'comp':
                obj.compile_constraints = v
        except Exception as e:
            out = excname(e)
        self.emit(op='set', s=s, attr=attr, v=v if attr == 'pol' else lim_ev(v) if attr != 'comp' else int(bool(v)), ok=ok, out=out)

    def c_get(self, s):
        o = self.solvers[s - 1]
        f = lambda x: -1 if x is None else NONINT if not isinstance(x, (int, float)) else encticks(x)
        p = o.var_selection_policy
        self.emit(op='get', s=s, pol=p.name if isinstance(p, S.VarSelectionPolicy) else '?', lim=f(o.limit), to=f(o.timeout),
                  comp={True: 1, False: 0}.get(o.compile_constraints, 2))

    def c_start(self, a):
        s = self.solvers[a['s'] - 1]
        if a.get('via') == 'model':          # ModelSolver with given model and solver
            k = (self.cur, a['s'])
            if k not in self.wrappers:
                self.wrappers[k] = S.ModelSolver(model=self.model, solver=s)
            g = iter(self.wrappers[k])
        elif a.get('objs'):
            g = s.optimize(self.model, self.objs(a), **self.args(a))
        else:
            g = s.solve(self.model, **self.args(a))
        self.gens.append(iter(g))
        self.gsolver.append(a['s'])
        self.emit(op='start', **self.evargs(a))

    def one(self, g, opt):
        CLOCK.log = []
        try:
            with guard(STEP):
                x = next(self.gens[g - 1])
            if opt:
                x = x.solution
            sol = [[k, enc(v)] for k, v in x.items()]
            self.last[g] = x
            self.kept.setdefault(g, []).append(x)
            out = 'sol'
        except StopIteration:
            out, sol = 'end', []
        except Hang:
            out, sol, self.dead = 'hang', [], True
        except Exception as e:
            out, sol = excname(e), []
        tk, CLOCK.log = short(CLOCK.log), None
        if CLOCK.auto:                       # the time the solver itself reports
            t = encticks(self.solvers[self.gsolver[g - 1] - 1].get_stats().elapsed)
            tk, self.spent[g] = [t - self.spent.get(g, 0)], t
        self.emit(op='next', g=g, out=out, sol=sol, tk=tk, failed=self.failed)
        self.failed = 0
        return out

    def isopt(self, g):
        return bool([e for e in self.ev if e['op'] == 'start'][g - 1]['objs'])

    def c_next(self, g, n=1, adv=0):
        o = self.isopt(g)
        for _ in range(n):
            if self.one(g, o) != 'sol':
                break
            CLOCK.tick(adv)

    def c_drain(self, g, adv=0):
        o = self.isopt(g)
        for _ in range(self.cap):
            if self.one(g, o) != 'sol':
                return
            CLOCK.tick(adv)
        self.emit(op='fail')

    def c_fault(self, n):
        """the n-th evaluation of a constraint of ours from now fails; 0: none does"""
        def do():
            self.failed = 1
            raise Fault()
        HOOK.update(after=n, do=do)

    def c_nest(self, n, g):
        """during the n-th evaluation from now, enumeration g is asked for its next solution"""
        def do():
            if g <= len(self.gens) and not getattr(self.gens[g - 1], 'gi_running', True):
                log = CLOCK.log
                self.one(g, self.isopt(g))
                CLOCK.log = log
        HOOK.update(after=n, do=do)

    def c_close(self, g):
        try:
            self.gens[g - 1].close()
            out = 'ok'
        except Exception as e:
            out = excname(e)
        self.emit(op='close', g=g, out=out)

    def c_mutate(self, g, how):
        d = self.last.get(g)
        if d is None:
            return
        self.kept[g] = [x for x in self.kept[g] if x is not d] + [None]
        if how == 0:
            d.clear()
        elif how == 1:
            for k in list(d):
                d[k] = -77
        else:
            d['zz_extra'] = 1
            for k in list(d)[:1]:
                d.pop(k)

    def c_kept(self, g):
        """the solutions the consumer kept, as they are now"""
        if None not in self.kept.get(g, [None]):
            self.emit(op='kept', g=g, sols=[[[k, enc(v)] for k, v in x.items()] for x in self.kept[g]])

    def c_advance(self, n):
        CLOCK.tick(n)

    def c_stats(self, s):
        try:
            st = self.solvers[s - 1].get_stats()
            i = st.interrupt
            self.emit(op='stats', s=s, out='ok', count=enc(st.count), el=encticks(st.elapsed), intr='none' if i is None else str(i))
        except Exception as e:
            self.emit(op='stats', s=s, out=excname(e), count=0, el=0, intr='')

    def c_best(self, a):
        s = self.solvers[a['s'] - 1]
        CLOCK.log = []
        sol, has, isopt, intr = [], 0, 0, ''
        try:
            with guard(STEP):
                r = s.optimal_solution(self.model, self.objs(a), **self.args(a))
            if r.solution is not None:
                has = 1
                sol = [[k, enc(v)] for k, v in r.solution.items()]
            isopt = 1 if r.is_optimal is True else 0 if r.is_optimal is False else 2
            i = s.get_stats().interrupt
            intr = 'none' if i is None else str(i)
            out = 'ok'
        except Hang:
            out, self.dead = 'hang', True
        except Exception as e:
            out = excname(e)
        tk, CLOCK.log = short(CLOCK.log), None
        self.emit(op='best', out=out, sol=sol, has=has, isopt=isopt, intr=intr, tk=tk, failed=self.failed, **self.evargs(a))
        self.failed = 0

    def c_snap(self):
        names, doms = [], []
        for n, i in self.model.variables().items():
            if i.domain is not None:
                names.append(n)
                doms.append([enc(v) for v in i.domain])
        self.emit(op='snap', names=names, doms=doms, ncons=len(list(self.model.constraints())), solv=int(bool(self.model.solvable())))

    def c_eval(self, ast, asg):
        v = 0
        try:
            e = build(ast, self.var, self.par)
            v = e.evaluate(dict(zip(self.names, asg))) if isinstance(e, X.Expression) else e
            out, v = 'ok', enc(v)
        except Exception as x:
            out = excname(x)
        self.emit(op='eval', ast=ast, asg=asg, out=out, v=v)

    def run(self):
        for cmd in self.case['prog']:
            if self.dead:
                break
            try:
                getattr(self, 'c_' + cmd[0])(*cmd[1:])
            except Exception as e:
                self.emit(op='fail', cmd=cmd[0], exc=excname(e), msg=str(e)[:200])
                break
        return self.ev


def record(case):
    import random
    random.seed(case['id'])
    r = Run(case)
    ev = r.run()
    CLOCK.auto = 0
    for g in r.gens:
        try:
            g.close()
        except Exception:
            pass
    return {'id': case['id'], 'events': ev}
