"""Writes properties.jsonl and MANIFEST.json from rules/meta.py and rules/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, 'rules')]
import meta, registry
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for m in sorted(meta.META, key=lambda m: m['id']):
        assert len(m['title']) <= 80, m['id']
        f.write(json.dumps({k: m[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        if m['na']:
            na.append({'property': m['id'], 'reason': m['na']})
        else:
            assert m['id'] in registry.RULES, m['id']
            checks.append({'property': m['id'], 'quick_cmd': './check %s quick' % m['id'], 'thorough_cmd': './check %s thorough' % m['id'],
                           'technique': m['technique'], 'level': 'other', 'level_note': m['note']})
missing = set(registry.RULES) - {m['id'] for m in meta.META}
if missing:
    print('no metadata for', sorted(missing))
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
