"""Writes MANIFEST.json: every property with a module in pbt/checks is claimed."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'round trip': 'property-based testing: generated values written and read back',
    'reference': 'property-based testing against a reference implementation',
    'metamorphic': 'property-based testing of metamorphic relations',
    'model': 'property-based testing of whole runs against a reference model',
    'fuzz': 'structured fuzzing of the input text with an invariant as oracle',
    'history': 'stateful property-based testing of generated call histories',
}
KIND = dict.fromkeys(['C%02d' % i for i in range(1, 41)], 'reference')
KIND.update(C04='fuzz', C05='round trip', C08='round trip', C15='metamorphic',
            C16='metamorphic', C19='model', C24='history', C29='model', C30='metamorphic',
            C31='model', C32='metamorphic', C33='model', C34='model', C36='history',
            C38='history', C40='model')


def texts(path):
    out = {}
    with open(path) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id in ('RULE', 'ASSUMPTIONS') \
                    if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                    else False:
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def main():
    checks, missing = [], []
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        properties = [json.loads(line) for line in f]
    for p in properties:
        i = p['id']
        path = os.path.join(HERE, 'pbt', 'checks', i.lower() + '.py')
        if not os.path.exists(path):
            missing.append({'property': i, 'reason': 'no check yet'})
            continue
        t = texts(path)
        note = 'Held on every generated case of each run; no proof. Assumes: ' + \
            '; '.join(t.get('ASSUMPTIONS') or ['nothing beyond the generated domain']) + '.'
        checks.append({
            'property': i, 'quick_cmd': './check %s quick' % i,
            'thorough_cmd': './check %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': TECHNIQUE[KIND[i]] + ' (Hypothesis, with shrinking)',
            'level': 'exploration', 'level_note': note})
    data = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing,
            'notes': 'Every check translates /repo\'s working tree itself (Python 2 to 3, '
                     'with lib2to3 as the project\'s build does) into a scratch directory. '
                     'No hooks are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
