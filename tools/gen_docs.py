#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from the table below (python3 tools/gen_docs.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique, note, claimed=True):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, claimed=claimed))


TESTS = 'Only 6 of the repository\'s tests run here (class lookups and two spot checks of a sampler); '

prop('C01', 'Halo mass functions: draws follow the mass function that is reported',
     'Objects drawn from any mass function lie inside the requested mass range, and their number and mass spectrum '
     'follow the differential mass function the same object reports: mean number and total mass are its integrals, '
     'the number is Poisson distributed when requested and the rounded mean otherwise. A suppressed (warm, mixed or '
     'fuzzy dark matter) mass function has exactly the documented ratio to the unsuppressed one, never exceeds it and '
     'equals it when there is no cutoff. Field-halo mass functions reproduce Sheth-Tormen in the plane\'s volume, scale '
     'linearly with the amplitude parameter and keep their pivot amplitude when tilted; named models carry their '
     'published coefficients.',
     ['inputs', 'configurations'], 'every mass range, slope, amplitude, cutoff, redshift and random state',
     TESTS + 'sampling laws are statements about distributions over all parameters, not about single draws.',
     ['pyHalo/Rendering/MassFunctions/mass_function_base.py', 'pyHalo/Rendering/MassFunctions/density_peaks.py',
      'pyHalo/Rendering/MassFunctions/delta_function.py', 'pyHalo/Rendering/MassFunctions/gaussian.py',
      'pyHalo/Rendering/MassFunctions/stucker.py', 'pyHalo/mass_function_models.py'],
     [('closed-form / quadrature moments and inverse-CDF + rejection sampling', 'mass_function_base.py'),
      ('power-law fit to colossus sheth99 with h factors', 'density_peaks.py')],
     ['draw()', 'evaluate()', 'n_mean', 'first_moment', 'turnover()', 'preset_mass_function_models()'],
     'statistical trace monitor over recorded draws (exact Poisson tests, KS, tail counts) against log-quadrature of '
     'the reported mass function and colossus',
     'Observes real draws of every class over random configurations; false-alarm probability per statistic < 1e-7.')

exec(open(os.path.join(V, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props_more.py')) else None

for p in P:
    if not os.path.exists(os.path.join(V, 'checks', p['pid'] + '.py')):
        p['claimed'], p['note'] = False, 'check not built yet'

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['pid']
        f.write(json.dumps({
            'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': p['pid'], 'quick_cmd': './run.sh %s quick' % p['pid'],
        'thorough_cmd': './run.sh %s thorough' % p['pid'], 'technique': p['technique'], 'level': 'exploration',
        'level_note': p['note']} for p in P if p['claimed']],
    'not_applicable': [{'property': p['pid'], 'reason': p['note']} for p in P if not p['claimed']],
    'hooks': {'guard': 'PYHALO_VERIF (unused: no hooks were added to /repo)', 'enable':
              'nothing to enable: monitors attach from /verif by wrapping public calls at run time', 'source_commits': []},
    'notes': 'Every check imports pyHalo from /repo\'s working tree with a fresh bytecode cache; lenstronomy, absent '
             'here, is provided by lib/lenstronomy_standin.py (real package used when installed).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
