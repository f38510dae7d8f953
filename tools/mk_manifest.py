"""Writes MANIFEST.json from the list of checks below."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': ('property-based testing of whole optimisations over generated domains and strategies against a reference layout model', 'every row handed to the objective, recorded or suggested is judged by an independent reading of the declared domain'),
 'C02': ('property-based testing with generated constraint sets against row-by-row evaluation of the expressions', 'designs, suggestions (with context, batches, adversarial acquisitions) and calls are checked for feasibility'),
 'C03': ('stateful property-based testing over sequences of contexts; acquisition with a known optimum as oracle', 'exact equality of fixed columns; freedom of the others shown by an acquisition whose best configuration is known'),
 'C04': ('property-based testing with exhaustive enumeration of small finite domains as oracle', 'batches, pending and ignored points, runs to exhaustion'),
 'C05': ('round-trip property-based testing against a reference encoding', 'all rows of generated spaces'),
 'C06': ('property-based testing against a nearest-legal-point reference', 'includes idempotence and points far outside'),
 'C07': ('property-based testing of design structure (counts, strata, lattices, reference sequence, coverage)', 'four designs over generated spaces'),
 'C08': ('differential property-based testing against direct evaluation of constraint expressions', 'values and gradients of masked acquisitions'),
 'C09': ('property-based testing against closed forms and numerical integration', 'stub surrogates with generated moments and costs'),
 'C10': ('metamorphic property-based testing: reported gradients against finite differences of reported values', 'one listed finding (EI_MCMC jitter)'),
 'C11': ('differential property-based testing against per-sample closed forms; permutation of samples', 'one listed finding (EI_MCMC jitter)'),
 'C12': ('differential property-based testing against a reference penalised acquisition, gradients by differences', 'also the state of the penalty after building batches'),
 'C13': ('differential property-based testing against a direct Gaussian-process posterior; gradients by differences; copies', 'histories of updates, three kernels, sampled variant'),
 'C14': ('property-based testing with random-search, exhaustive and start-point oracles', 'AcquisitionOptimizer, OptLbfgs, OptCma, apply_optimizer; DIRECT is not installed'),
 'C15': ('stateful property-based testing: call log of the objective against the recorded history', 'sequences of operations, scripted proposals, measured initial outputs'),
 'C16': ('stateful property-based testing under a virtual clock with scripted proposals; stopping oracle computed from the history', 'iterations, time, tolerance, repeated calls'),
 'C17': ('metamorphic property-based testing: maximise f against minimise -f', 'exact equality of histories'),
 'C18': ('metamorphic and law-based property testing of normalisation, alone and through whole optimisations', 'exact dyadic shifts and scales'),
 'C19': ('stateful property-based testing with a recording surrogate against the expected update schedule and data', 'intervals, batches, repeated calls'),
 'C20': ('differential property-based testing of worker counts against sequential evaluation, with a call log on disk', 'process-based evaluation with 1-8 workers'),
 'C21': ('fault injection by generated failing calls, sequential and parallel, with resumption', 'history compared with the one before the failing step'),
 'C22': ('round-trip property-based testing of saved files against the recorded history', 'evaluations, models and text report'),
 'C23': ('differential property-based testing: repeated, interleaved and alternating runs against runs alone', 'exact equality of histories'),
 'C24': ('differential property-based testing against a recursive reference merge; end-to-end generated configurations', 'parser, driver'),
 'C25': ('stateful property-based testing of recorded iterations against a reference log', 'intervals, several savers, ties'),
 'C26': ('property-based testing: distribution laws, permutation and shift relations, Monte-Carlo frequencies, gradients by differences', 'Monte-Carlo tolerance six standard errors plus the approximation error of EP'),
 'C27': ('differential property-based testing against independently written formulas', 'all bundled benchmarks'),
 'C28': ('property-based testing with a virtual clock and recorded costs', 'constant, user-supplied and time-based cost'),
 'C29': ('differential property-based testing against a reference reading of the declaration', 'also rejects malformed declarations'),
 'C30': ('property-based testing over generated option values, each observed at the component or in behaviour', 'unknown choices must be rejected'),
 'C31': ('property-based testing comparing deep copies of arguments before and after', 'all public entry points used by the other checks'),
 'C32': ('differential property-based testing: hand-driven loop against the closed loop', 'exact equality of proposals'),
 'C33': ('property-based testing of the remaining surrogates, alone and through the main optimizer', 'warped, input-warped and sparse'),
 'C34': ('property-based testing comparing what is drawn with the run and the surrogate', 'one and two model coordinates; GPy density plot stubbed'),
 'C35': ('property-based testing: median regret of groups of generated runs against a threshold and random search', 'smooth noiseless objectives in one and two dimensions'),
}
have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'props')) if f.startswith('c') and f.endswith('.py'))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash -c "mkdir -p evidence && /opt/venv/bin/python -c \'import GPyOpt\'"', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in have:
        m['checks'].append({'property': i, 'quick_cmd': 'bash run.sh check %s --tier quick' % i, 'thorough_cmd': 'bash run.sh check %s --tier thorough' % i,
                            'technique': T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no check has been finished for this property yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks')
