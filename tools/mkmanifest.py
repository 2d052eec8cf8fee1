import json, os
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/level_notes.json'))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists('{}/checks/{}.py'.format(V, pid.lower())):
        n = NOTES.get(pid, {})
        checks.append(dict(
            property=pid, quick_cmd='./check.sh {} quick'.format(pid),
            thorough_cmd='./check.sh {} thorough'.format(pid),
            technique=n.get('technique', 'TLA+ specification model-checked with TLC; TLC trace validation of recorded executions of the real code'),
            level='model_checking',
            level_note=n.get('note', 'Exhaustive for the design within the constants of the .cfg files; conformance holds for the recorded scenarios (generated from the specification and at random from the seed).')))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='none', enable='no hooks are needed: every check observes the public interface of /repo', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
