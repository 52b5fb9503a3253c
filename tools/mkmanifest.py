"""writes MANIFEST.json from the list of built checks"""
import json, os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HOME + '/properties.jsonl')]
TECH = json.load(open(HOME + '/tools/techniques.json'))
NA = {
  'N01': 'the error bound is an inequality over unbounded integer weights and float logarithms; no static argument in reach bounds it',
  'N02': 'floating-point accuracy over all dice is a numeric-error question outside this family',
  'N03': 'the reference (a web service) is not available and its behaviour is not in the source',
  'N04': 'termination and cost bounds of recursive user programs and of the table-driven parser are not decidable here by static means in reach',
}
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(f'{HOME}/checks/{i.lower()}.py') and i in TECH:
    t = TECH[i]
    checks.append({'property': i, 'quick_cmd': f'python3 run.py {i}', 'thorough_cmd': f'python3 run.py {i} --thorough',
                   'evidence_file': f'evidence/{i}.json', 'technique': t['technique'], 'level': t['level'], 'level_note': t['note']})
  else:
    na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < (3, 9))"', 'checks': checks, 'not_applicable': na},
          open(HOME + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
