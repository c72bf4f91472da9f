import json, jsonschema, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    try:
        jsonschema.validate(json.loads(l), s)
    except Exception as e:
        print(json.loads(l)['id'], str(e)[:200])
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('evidence'):
    jsonschema.validate(json.load(open('evidence/' + f)), e)
print('ok')
