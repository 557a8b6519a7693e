"""Evidence: what one run of a check covered, all counts measured."""
import json
import os

from . import core

RULE = {
    'C01': 'A case is one simulated run: a seeded schedule of clients\' distance and quantile queries on prepared area '
           'sessions. It is non-trivial if it made more than one call, distinct if its sequence of calls, flags of the '
           'session record and warnings is new.',
    'C05': 'A case is one simulated run: 2 to 4 threads under one decided interleaving. Distinct: the sequence of '
           '(from, to, source line) of its thread switches is new; non-trivial: at least one switch or two jobs.',
}
DEFAULT = ('A case is one simulated run of a plan derived from one seed. It is non-trivial if it performed more than one '
           'operation or had at least one fault that fired, and distinct if its history (operations, outcomes, faults '
           'fired and where) is new.')


def write(prop, tier, seed, infos, wall, violations, real, stub):
    stats = {}
    for i in infos:
        core.merge(stats, i['stats'])
    runs = sum(i['runs'] for i in infos)
    distinct = sum(len(i['paths']) for i in infos)
    states = sum(len(i['states']) for i in infos)
    places = stats.pop('places', {})
    faults = stats.pop('faults', {})
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': min(distinct, sum(i['nontrivial'] for i in infos)),
        'rule': RULE.get(prop, DEFAULT),
        'samples': [s for i in infos for s in i['samples']][:4],
        'campaigns': {i['name']: {'planned': i['planned'], 'runs': i['runs'], 'wall_s': round(i['wall'], 1),
                                  'runs_per_hour': int(i['runs'] / max(i['wall'], 1e-3) * 3600),
                                  'stopped_by_time': i['cut'] > 0} for i in infos},
        'seeds_per_hour': int(runs / max(wall, 1e-3) * 3600),
        'simulated_time': 'the code has no timers; progress is counted in operations and scheduler steps (below)',
        'distinct_histories': distinct,
        'distinct_states': states,
        'distinct_states_measure': 'digests of session flags / switch points / (operation, fault) situations reached',
        'faults_fired': faults,
        'interrupt_points_reached': len(places),
        'counters': stats,
        'determinism': {'re_executed': sum(i['rerun'] for i in infos), 'identical': sum(i['again'] for i in infos)},
        'real_components': real,
        'simulated_components': stub,
    }
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': ['sampled, not exhaustive', 'interrupts and thread switches occur between lines or byte-code '
                           'instructions of repository code', 'files behave as the scratch file system does, plus the '
                           'injected faults'],
           'wall_s': round(wall, 2), 'violations': violations}
    d = os.path.join(core.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, prop + '.json'))
