"""Registry of the proof tasks of every property, their runs and evidence."""
import os

from . import notes

MODULES = ('lexical', 'commands', 'trees', 'makers', 'clusters', 'matchers',
           'lemmas')
_loaded = []


def load():
    """Import the task modules; what cannot be imported is reported."""
    import importlib
    errors = []
    if not _loaded:
        for m in MODULES:
            try:
                importlib.import_module('.' + m, __name__)
            except Exception as e:       # the code lost a name it refers to
                errors.append('%s: %r' % (m, e))
        _loaded.append(errors)
    return _loaded[0]


def run(prop, tier):
    from . import base, crosscheck, depends
    errors = load()
    byname = dict((t.name, t) for t in base.TASKS)
    tasks = [byname[n] for n in depends.names(prop, base.TASKS)]
    seconds, total = {'quick': (100, 360), 'thorough': (600, 2400)}[tier]
    res = base.run_tasks(tasks, seconds, total=total) if tasks else []
    bad = crosscheck.run(tier)
    refuted = []
    for r in res:
        if bad and r['status'] == 'proved':
            r['status'], r['reason'] = 'undecided', 'engine: ' + bad[0]
        for f in r['failures']:
            if f['verdict'] == 'refuted' and not bad:
                refuted.append({'name': '%s: %s' % (r['task'], f['name']),
                                'contract': r['title'],
                                'functions': r['functions'],
                                'detail': f['detail'], 'path': f['path']})
    und = [r for r in res if r['status'] == 'undecided']
    return {'results': res, 'refuted': refuted, 'errors': errors,
            'crosscheck': crosscheck.count(),
            'failed_names': [x['name'] for x in refuted] +
            ['%s: undecided, %s' % (r['task'], r['reason']) for r in und],
            'obligations': sum(r['obligations'] for r in res),
            'discharged': sum(r['discharged'] for r in res),
            'all_proved': bool(res) and not errors and
            all(r['status'] == 'proved' for r in res),
            'summary': '%d contracts: %d proved, %d refuted, %d undecided' % (
                len(res), sum(r['status'] == 'proved' for r in res),
                sum(r['status'] == 'refuted' for r in res), len(und))}


TRUSTED = [
    'CPython 3.12 and its str, list, dict, set, io, re and hashlib',
    'the verification-condition generator /verif/pv (core, val, interp, '
    'models, loops): path exploration, models of the built-ins, '
    'cross-checked against CPython on concrete inputs in this run',
    'z3 (z3-solver of /opt/veriftools/pyvenv)',
    'Lean 4 (kernel and core library) for the lemmas of pv/lean',
]


def evidence(prop, tier, seed, pr, sr):
    info = notes.NOTES.get(prop, {})
    proved = pr['all_proved']
    level = 'proof' if info.get('level') == 'proof' and proved else 'other'
    fns = sorted(set(f for r in pr['results'] for f in r['functions']))
    cov = {
        'obligations': pr['obligations'], 'discharged': pr['discharged'],
        'checker_cmd': 'cd /verif && python3-vt -m pv.proofs %s' % prop,
        'trusted_base': TRUSTED,
        'explanation': explanation(prop, info, pr),
        'functions_under_contract': fns,
        'contracts': [{
            'task': r['task'], 'contract': r['title'],
            'status': r['status'], 'reason': r['reason'],
            'obligations': r['obligations'], 'discharged': r['discharged'],
            'by_name': r['counts'], 'paths': r['paths'],
            'executed_in_place': r['inlined'],
            'replaced_by_contract': r['stubbed'],
            'seconds': r['seconds'], 'solver_s': r['solver_s'],
            'solver_queries': r['queries'],
            'reached': r['reached']} for r in pr['results']],
        'backend': 'structural rules of pv.val on strings and sequences; '
                   'arithmetic by z3; lemmas by Lean 4',
        'solver_s': round(sum(r['solver_s'] for r in pr['results']), 2),
        'engine_crosscheck_cases': pr['crosscheck'],
        'evaluations': sr['n'] + sr['enum'],
        'distinct_nontrivial': sr['distinct'],
        'rule': 'bounded stand-in and search for a failing input: cases of '
                'pv/cases.py for this property, run against the real code; '
                'a case is non-trivial when it is not empty and was not '
                'generated before; never counted as proved',
        'samples': sr['samples'],
    }
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': cov,
            'assumptions': list(info.get('assumes', [])) +
            sorted(set(a for r in pr['results'] for a in r['assumed']))}


def explanation(prop, info, pr):
    und = [r for r in pr['results'] if r['status'] != 'proved']
    t = ''
    if und:
        t = 'NOT discharged in this run, left to the bounded stand-in: %s. ' \
            % '; '.join('%s (%s %s)' % (r['task'], r['status'], r['reason'])
                        for r in und)
    return t + 'Proved for all inputs: %s Bounded: %s' % (
        info.get('proved', 'nothing.'), info.get('bounded', 'nothing.'))
