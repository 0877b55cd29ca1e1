import json,sys,subprocess
# usage: kf.py PROP COMMIT text
p,c,t=sys.argv[1:4]
h=subprocess.check_output(['git','-C','/repo','rev-parse',c],text=True).strip()
with open('/verif/known_findings.jsonl','a') as f:
    f.write(json.dumps({"status":"fixed","property":p,"commit":h,"what":f"fixed: property={p} {h[:7]} {t}"})+"\n")
