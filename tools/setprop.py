"""usage: setprop.py ID FIELD < new text  (edits one field of tools/props.py)"""
import sys, re
pid, field = sys.argv[1:3]
new = sys.stdin.read().strip()
p = 'tools/props.py'
sys.path.insert(0, 'tools')
import props
cur = [q for q in props.PROPS if q['id'] == pid][0]
cur = cur['quantifier']['text'] if field == 'quantifier' else cur[field]
s = open(p).read()
for form in (repr(cur), '"' + cur.replace('"', '\\"') + '"'):
    if form in s:
        assert s.count(form) == 1
        s = s.replace(form, '"' + new.replace('"', '\\"') + '"')
        open(p, 'w').write(s)
        break
else:
    sys.exit('not found')
