"""addfix.py PROPERTY COMMIT TEXT – records a repaired genuine defect in known_findings.json"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
l = d if isinstance(d, list) else d["findings"]
l.append({"id": "F%d" % (len(l) + 1), "property": sys.argv[1], "status": "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3]), "what": sys.argv[3]})
json.dump(d, open(p, "w"), indent=1, ensure_ascii=False)
