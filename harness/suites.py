"""Which cases, recorder and specification decide each property."""
import gen, gen_small, gen_expr, gen_timer, gen_model, gen_puzzle, gen_cli
from tlcrun import generate


def session(prop, nquick, nthorough):
    def g(p, seed, tier):
        return gen.session_cases(prop, seed, tier, nquick if tier == 'quick' else nthorough)
    return dict(gen=g, rec='session', spec='SessionTrace')


SUITES = {}
for p, q in dict(C01=2500, C02=1200, C03=1500, C04=2000, C05=2000, C06=2000, C07=3000, C08=3000, C11=2500, C13=2500, C15=1800).items():
    SUITES['session-' + p] = session(p, q, 20 * q)



for p in 'C01 C02 C03 C04 C05 C06 C07 C08'.split():
    SUITES['small-' + p] = dict(gen=gen_small.cases, rec='session', spec='SessionTrace', chunk=3000)
SUITES['settings'] = dict(gen=gen_small.settings, rec='session', spec='SessionTrace')
SUITES['parameters'] = dict(gen=gen_small.params, rec='session', spec='SessionTrace')
SUITES['hollow'] = dict(gen=gen_small.hollow, rec='session', spec='SessionTrace')
SUITES['large'] = dict(gen=gen_small.large, rec='session', spec='SessionTrace', chunk=1000)
SUITES['running'] = dict(gen=gen_small.running, rec='session', spec='SessionTrace')
SUITES['faults'] = dict(gen=gen_small.faults, rec='session', spec='SessionTrace')
SUITES['schedules'] = dict(gen=gen_small.schedules, rec='session', spec='SessionTrace')


def formulas(kind, nquick, nthorough):
    def g(p, seed, tier):
        return gen_expr.cases(kind, p, seed, nquick if tier == 'quick' else nthorough)
    return dict(gen=g, rec='expr', spec='ExprTrace')


def small_formulas(kind):
    def g(p, seed, tier):
        forms = generate('ExprGen', 'CONSTANT Depth = %d\nINIT Init\nNEXT Next\n' % (1 if tier == 'quick' else 2))
        return gen_expr.small(p, seed, [f['f'] for f in forms], kind)
    return dict(gen=g, rec='expr', spec='ExprTrace')


for k in ('val', 'vars', 'eq'):
    SUITES['formulas-' + k] = formulas(k, 2500, 40000)
    SUITES['small-' + k] = small_formulas(k)

def big(p, seed, tier):
    return gen_expr.big(p, seed, 500 if tier == 'quick' else 10000)


SUITES['formulas-shared'] = dict(gen=gen_expr.shared, rec='expr', spec='ExprTrace')
SUITES['formulas-deep'] = dict(gen=gen_expr.deep, rec='expr', spec='ExprTrace')
SUITES['formulas-big'] = dict(gen=big, rec='expr', spec='ExprTrace')

SUITES['timer-all'] = dict(gen=gen_timer.exhaustive, rec='timer', spec='TimerTrace', chunk=30000, constants=['MaxNow = 0', 'MaxCnt = 0'])
SUITES['timer-random'] = dict(gen=gen_timer.rand, rec='timer', spec='TimerTrace', chunk=30000, constants=['MaxNow = 0', 'MaxCnt = 0'])

MC = ['NameSet = {}', 'MaxDecls = 0', 'MaxCons = 0']
SUITES['model-all'] = dict(gen=gen_model.histories, rec='model', spec='ModelTrace', chunk=20000, constants=MC)
SUITES['model-random'] = dict(gen=gen_model.rand, rec='model', spec='ModelTrace', chunk=20000, constants=MC)

for k in ('sudoku', 'nonogram', 'clues', 'knapsack', 'crypt', 'graph', 'mapcoloring', 'queens', 'einstein'):
    SUITES[k] = dict(gen=getattr(gen_puzzle, k), rec='puzzle', spec='PuzzleTrace')

SUITES['cli'] = dict(gen=gen_cli.cases, rec='puzzle', spec='PuzzleTrace')

def search(tier='quick', bug='none', live=False, **k):
    """the design model of the search within these bounds, or one of its broken variants, which must be rejected"""
    c = dict(MaxVars=3, MaxCons=1, DomSet='"few"', Limits='{}', Timeouts='{}', WithObjs='FALSE', Tick=0)
    c.update(k)
    text = 'CONSTANTS\n  Bug = "%s"\n' % bug + ''.join('  %s = %s\n' % i for i in c.items())
    text += 'SPECIFICATION Spec\nINVARIANTS Refines Prompt TypeOK Sound\nCHECK_DEADLOCK FALSE\n' + ('PROPERTY Terminates\n' if live else '')
    return dict(spec='Search', text=text, tier=tier, expect='fail' if bug != 'none' else 'holds', name='%s %s' % (bug, c))


SEARCH = {
    'C01': [search(MaxCons=2), search('thorough', MaxCons=2, DomSet='"all"'), search('thorough', 'ad_last')],
    'C02': [search(MaxVars=2, MaxCons=2, DomSet='"all"', live=True), search('thorough', MaxCons=2, DomSet='"all"'), search('thorough', 'keep_empty')],
    'C03': [search(MaxCons=2)],
    'C04': [search(Limits='{0, 1, 2, 3}'), search('thorough', MaxCons=2, Limits='{0, 1, 2, 3, 5}'), search('thorough', 'limit_late', Limits='{0, 1, 2}')],
    'C05': [search(MaxVars=2, Timeouts='{0, 1, 3}', Tick=1, DomSet='"all"'), search('thorough', Timeouts='{0, 1, 2, 4, 6}', Limits='{0, 2}', Tick=2, WithObjs='TRUE'),
            search('thorough', 'no_clock', Timeouts='{0, 2}', Tick=1)],
    'C06': [search(MaxVars=2, Timeouts='{0, 2}', Limits='{0, 1}', Tick=1)],
    'C07': [search(WithObjs='TRUE'), search('thorough', MaxCons=2, WithObjs='TRUE', DomSet='"all"', MaxVars=3), search('thorough', 'stale_bound', WithObjs='TRUE')],
    'C08': [search(MaxVars=2, WithObjs='TRUE', Limits='{0, 1, 2}', DomSet='"all"'), search('thorough', MaxCons=2, WithObjs='TRUE', Limits='{1, 2}', Timeouts='{1, 2}', Tick=1),
            search('thorough', 'no_recheck', WithObjs='TRUE')],
}



def refines(tier='quick', bug='none', **k):
    """every step of the search is one module Backtrack allows, for which BacktrackProof proves the promises at every size"""
    c = dict(MaxVars=2, MaxCons=1, DomSet='"few"', Limits='{}', Timeouts='{}', WithObjs='TRUE', Tick=0)
    c.update(k)
    text = 'CONSTANTS\n  Bug = "%s"\n' % bug + ''.join('  %s = %s\n' % i for i in c.items())
    text += 'SPECIFICATION Spec\nPROPERTY IsBacktracking\nCHECK_DEADLOCK FALSE\n'
    return dict(spec='SearchRefines', text=text, tier=tier, expect='fail' if bug != 'none' else 'holds', name='refines %s %s' % (bug, c))


def proof(spec):
    return dict(spec=spec, proof=True, tier='thorough', name='proof of all obligations')


for p in 'C01 C02 C03 C07 C08'.split():
    SEARCH[p].append(proof('BacktrackProof'))
SEARCH['C01'] += [refines('thorough', 'ad_last', MaxVars=3)]
SEARCH['C02'] += [refines(), refines('thorough', MaxVars=3), refines('thorough', 'keep_empty', MaxVars=3)]
SEARCH['C03'] += [refines('thorough', MaxCons=2, MaxVars=3, WithObjs='FALSE')]
SEARCH['C07'] += [refines('thorough', DomSet='"all"'), refines('thorough', 'stale_bound', MaxVars=3)]
SEARCH['C08'] += [refines('thorough', MaxCons=2, Limits='{1}', Timeouts='{1}', Tick=1), refines('thorough', 'no_recheck', MaxVars=3)]

PROPS = {p: dict(suites=['session-' + p]) for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C11 C13 C15'.split()}
for p, k in dict(C09='val', C10='val', C14='vars', C25='eq').items():
    PROPS[p] = dict(suites=['formulas-' + k, 'small-' + k])
for p in ('C09', 'C10'):
    PROPS[p]['suites'].append('formulas-big')
    PROPS[p]['models'] = [dict(spec='BigLaws', cfg='BigLaws.cfg', tier='thorough')]
for p in ('C09', 'C10', 'C14', 'C25'):
    PROPS[p]['suites'] += ['formulas-deep', 'formulas-shared']
PROPS['C24'] = dict(suites=['timer-all', 'timer-random'], models=[dict(spec='Timer', cfg='Timer.cfg'), proof('TimerProof')])
PROPS['C12'] = dict(suites=['model-all', 'model-random'], models=[dict(spec='Model', cfg='Model.cfg'), proof('ModelProof')])
PROPS.update(C16=dict(suites=['sudoku']), C17=dict(suites=['nonogram']), C18=dict(suites=['knapsack']), C19=dict(suites=['crypt']),
             C20=dict(suites=['graph']), C21=dict(suites=['mapcoloring']), C22=dict(suites=['queens', 'einstein']), C26=dict(suites=['clues']), C23=dict(suites=['cli']))

for p in 'C01 C02 C03 C04 C05 C06 C07 C08'.split():
    PROPS[p]['suites'].append('small-' + p)
for p in 'C01 C02 C04 C06 C07 C08'.split():
    PROPS[p]['suites'].append('hollow')
for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C13'.split():
    PROPS[p]['suites'].append('large')
PROPS['C11']['suites'].append('parameters')
PROPS['C13']['suites'].append('schedules')
for p in 'C01 C02 C06 C07 C08 C13'.split():
    PROPS[p]['suites'].append('faults')
for p in ('C05', 'C06'):
    PROPS[p]['suites'].append('running')
PROPS['C15']['suites'].append('settings')
for p, m in SEARCH.items():
    PROPS[p]['models'] = m


def laws(kind, tier='quick'):
    return dict(spec='PuzzleLaws', text='CONSTANT Kind = "%s"\nINIT Init\nNEXT Next\nINVARIANTS Agree Columns Regions Unique\nCHECK_DEADLOCK FALSE\n' % kind,
                tier=tier, name='laws ' + kind)


def encoding(kind, bug='none', tier='quick'):
    return dict(spec='Encodings', text='CONSTANT Kind = "%s"\nCONSTANT Bug = "%s"\nINIT Init\nNEXT Next\nINVARIANT Right\nCHECK_DEADLOCK FALSE\n' % (kind, bug),
                tier='thorough' if bug != 'none' else tier, expect='fail' if bug != 'none' else 'holds', name='encoding %s %s' % (kind, bug))


PROPS['C02']['models'].append(dict(spec='CspLaws', text='CONSTANTS\n MaxVars = 3\n MaxCons = 2\n DomSet = "few"\nINIT Init\nNEXT Next\n'
                                   'INVARIANTS Agree Perm Lex Dominance\nCHECK_DEADLOCK FALSE\n', name='laws'))
PROPS['C16']['models'] = [laws('sudoku'), encoding('sudoku'), encoding('sudoku', 'pairs'), encoding('sudoku', 'clash')]
PROPS['C17']['models'] = [laws('nonogram'), encoding('nonogram'), encoding('nonogram', 'window'), encoding('nonogram', 'gap')]
PROPS['C19']['models'] = [laws('crypt', 'thorough'), encoding('crypt')]
PROPS['C20']['models'] = [laws('graph'), encoding('graph')]
PROPS['C21']['models'] = [laws('map')]
PROPS['C22']['models'] = [laws('queens'), laws('einstein'), encoding('queens'), encoding('queens', 'diag')]

NOTES = {
    '*': 'Every recorded execution of the real code is decided exactly by TLC against the specification; assurance is limited to the '
         'generated executions (seeded random programs, counted in the evidence) and to the small constants of the design models. '
         'Trusted: TLC, the recorder (thin projection of the public API), the fake clock.',
}
