import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import os,importlib.util
notes=json.load(open('/verif/tools/notes.json')) if os.path.exists('/verif/tools/notes.json') else {}
checks=[]
for p in props:
    n=notes.get(p['id'],{})
    checks.append({"property":p['id'],"quick_cmd":f"python3 check.py {p['id']} --tier quick","thorough_cmd":f"python3 check.py {p['id']} --tier thorough",
      "technique":n.get('technique',"bounded exhaustive input families against reference semantics (stand-in)"),"level":n.get('level','exploration'),
      "level_note":n.get('level_note',"bounded: exhaustive lexeme words and seeded generated documents on the real crate against independent oracles")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[],"notes":"see DESIGN.md"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
