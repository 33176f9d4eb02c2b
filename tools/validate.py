import json, re, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); jsonschema.validate(p, s)
    n = len(re.findall(r'[.!?](?:\s|$)', p['statement']))
    if n > 3: print(p['id'], n)
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
