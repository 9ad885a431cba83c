"""Writes /verif/known_findings.json. Run by hand after a repair or a new finding; no check writes that file."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(property='C14', key='cir-zero-sensitivity', status='finding',
         what='ctbayes/ito/models/cir.py: eval_grad and eval_bounds_grad return zeros for every input, so the potential sensitivity of the CIR model is not bounded and its parameter updates ignore the path integral'),
    dict(property='C15', key='cir-boundary-z-barrier', status='finding',
         what='ctbayes/ea3lib/seed.py sample_raw_seed: with a finite bound and unequal end points the standardised path is kept above a constant barrier, which is stricter than the bound; CIR augmentations (checked: a=b=s=1, v 0.05 -> 1, T=1) and their likelihood estimates are biased near the boundary'),
]
# property, start of the commit subject, what failed
FIXED = [
    ('C16', 'MyopicRwSampler', 'ito sample_posterior raised TypeError in its first parameter update'),
    ('C18', 'random walk proposals drew', 'random walk proposals were drawn from the process-global numpy generator, so runs with equal seeds differed'),
    ('C20', 'seq_update_normal', 'the running covariance was not the sample covariance of the visited states'),
    ('C10', 'sample_batch_ppp', 'batches were not a Poisson process: first coordinates not increasing across batches and of the wrong law'),
    ('C11', 'sample_backwards', 'paths with a stationary start and given end state drew the initial state from the wrong law'),
    ('C13', 'generator statistics', 'the final uncompleted holding time of a path was left out of likelihood and posterior'),
    ('C04', 'interpolating only', 'refinement forgot which sectors reach the inner edge'),
    ('C16', 'the ito parameter precoin', 'the early rejection step of ito parameter updates left out the likelihood'),
    ('C19', 'ito mcem passed', 'ito MCEM passed n_cores as the acceptance probability'),
    ('C17', 'regime proposals trimmed', 'update_hidden cut the proposed regime path at the wrong observation times'),
    ('C14', 'ou eval_grad', 'eval_grad of the OU model was off by a term'),
    ('C14', 'switching ou3', 'drift integral and derivative of the ou3 model were not those of its drift'),
    ('C02', 'bounded escape', 'escape decisions given an outer barrier had wrong probabilities'),
    ('C19', 'ito mcem restarted', 'ito MCEM restarted every iteration from the initial parameter'),
    ('C06', 'seed.sample_bridge', 'seed.sample_bridge accepted with the wrong offset'),
    ('C05', 'raw skeletons', 'representations with asymmetric or one-sided bounds had the wrong law'),
    ('C06', 'cir endpoint', 'endpoints of the CIR model were biased near its boundary'),
    ('C23', 'splitting and pasting', 'splitting and pasting hidden sections shifted times, and observations were lost'),
    ('C08', 'adaptive rejection sampling', 'adaptive rejection sampling failed or hung on flat and log-linear hull segments'),
    ('C08', 'bracing', 'bracing started at or beyond a finite bound, where targets that vanish there never move'),
    ('C16', 'escaping a two-coin', 'with a portkey probability, path updates forgot revealed points when escaping, which biased the posterior (also C17, C09)'),
    ('C23', 'switching augmentations', 'augmentations of switching models with a transformed scale changed the observations (transformed back twice; also C15)'),
    ('C19', 'the switching maximizer started', 'the initial generator of the switching maximiser had columns instead of rows summing to zero'),
    ('C19', 'missing parameter bounds', 'the switching maximiser sized missing bounds by the number of regimes and failed or lost bounds'),
    ('C21', 'evaluating a jump path', 'a jump path evaluated before its start answered with its final state'),
    ('C14', 'CIR eval_inf_disc', 'the global minimum of the CIR potential raised TypeError'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
    out = [dict(f) for f in FINDINGS]
    for p, start, what in FIXED:
        hit = [l.split(' ', 1)[0] for l in log if l.split(' ', 1)[1].startswith('fix: ' + start)]
        assert len(hit) == 1, (start, hit)
        out.append(dict(property=p, key=f'fixed-{hit[0]}', status='fixed', what=f'fixed: property={p} {hit[0]} {what}'))
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'findings': out}, f, indent=1)
        f.write('\n')


main()
