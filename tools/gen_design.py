"""Writes DESIGN.md from the parts in tools/."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, 'tools')
head = open(T + '/design_head.md').read().replace('@OTHERS@', open(T + '/design_scope.md').read())
rows = json.load(open(T + '/design_rows.json'))
out = [head]
for l in open(ROOT + '/properties.jsonl'):
  p = json.loads(l)
  i = p['id']
  r = rows.get(i, ('', '', ''))
  rule = ''
  if os.path.exists(ROOT + '/checks/%s.py' % i):
    src = open(ROOT + '/checks/%s.py' % i).read()
    if "RULE = '''" in src:
      rule = ' '.join(src.split("RULE = '''")[1].split("'''")[0].split())
    elif 'RULE = (' in src:
      rule = ''
  cost = ''
  ev = ROOT + '/tools/costs.json'
  if os.path.exists(ev):
    c = json.load(open(ev)).get(i)
    if c:
      cost = ' Cost: %d cases, %d transitions, about %d s (quick, 8 cores).' % tuple(c)
  out.append('### %s — %s\n\n*Explored:* %s.%s  \n*Oracle:* %s.  \n*Why tests cannot:* %s.  %s\n' % (
      i, p['title'], r[0], (' Rule: ' + rule + '.') if rule else '', r[1],
      p['why_tests_cant'].rstrip('.') if 'why_tests_cant' in p else r[2], cost))
seeds = []
caught = json.load(open(T + '/seeds_caught.json'))
for d in sorted(os.listdir(ROOT + '/seeded')):
  m = json.load(open(ROOT + '/seeded/%s/meta.json' % d))
  seeds.append('| %s: %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['property'], m['needs'], caught.get(d, m['property'])))
out.append(open(T + '/design_tail.md').read().replace('@SEEDS@', '\n'.join(seeds)).replace('@MUT@', open(T + '/mut.md').read()))
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
