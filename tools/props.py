"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: seeded search over '
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note,
         state=None, observe=None):
  assert len(title) <= 80, (pid, len(title))
  P.append(dict(
      rec={
          'id': pid, 'title': title, 'statement': statement,
          'quantifier': {'over': over, 'text': text},
          'why_tests_cant': why,
          'anchors': {
              'files': files,
              **({'state': [dict(zip(('name', 'meaning', 'where'), s))
                            for s in state]} if state else {}),
              'mechanism': [{'name': n, 'where': w} for n, w in mech],
              **({'observe_at': observe} if observe else {}),
              'hook_needed': None,
          },
      }, tech=TECH + tech, note=note))


def not_applicable(pid, title, statement, over, text, why, files, mech, reason):
  P.append(dict(rec={
      'id': pid, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
      'anchors': {'files': files,
                  'mechanism': [{'name': n, 'where': w} for n, w in mech],
                  'hook_needed': None}}, tech=None, note=None, na=reason))


exec(open(os.path.join(VERIF, 'tools/props_data.py')).read())

COMMON = ('Sampling, not proof: a clean batch is evidence over the seeds it ran. '
          'Trusted: the simulator core (scheduler, seams) in /verif/sim. ')


def main():
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps(p['rec']) + '\n')
  checks = []
  for p in P:
    if p.get('na'):
      continue
    i = p['rec']['id']
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} --tier quick',
        'thorough_cmd': f'./check.sh {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': p['tech'],
        'level': 'exploration',
        'level_note': COMMON + p['note'],
    })
  m = {
      'version': 1,
      'setup_cmd': './setup.sh',
      'hooks': {
          'guard': 'none (no hooks were needed in /repo)',
          'enable': 'nothing to enable: every seam is outside /repo',
          'source_commits': [],
      },
      'checks': checks,
      'not_applicable': [{'property': p['rec']['id'], 'reason': p['na']}
                         for p in P if p.get('na')],
  }
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


main()
