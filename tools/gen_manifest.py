"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
NOTES = {}
LEVEL_NOTE = ('Exhaustive enumeration of the bounded space named in the rule of the evidence file, each execution run on '
              'the real code and compared with an independent reference model; nothing is sampled. Outside the bounds '
              'nothing is claimed. Trusts the reference model in mc/ and numpy/scipy special functions.')


def main():
  checks, na = [], []
  for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(ROOT, 'checks', pid + '.py')
    if os.path.exists(path):
      tech = 'bounded exhaustive exploration of the real code against a reference model'
      note = LEVEL_NOTE
      for l in open(path):
        if l.startswith('TECHNIQUE = '):
          tech = l.split("'")[1]
      checks.append({'property': pid, 'quick_cmd': './check %s quick' % pid,
                     'thorough_cmd': './check %s thorough' % pid, 'technique': tech,
                     'level': 'model_checking', 'level_note': NOTES.get(pid, note)})
    else:
      na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'no check built yet')})
  m = {'version': 1,
       'setup_cmd': './check --selftest',
       'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import /repo as it is', 'source_commits': []},
       'checks': checks, 'not_applicable': na}
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')


main()
