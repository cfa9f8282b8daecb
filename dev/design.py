"""regenerate DESIGN.md from dev/design_head.md, dev/proplist.py, the unit directives and seeded/*/meta.json"""
import sys, os, json, glob
V=os.path.realpath(os.path.join(os.path.dirname(__file__),'..')); sys.path.insert(0,V+'/lib')
import engine
P={}
def prop(pid,title,statement,kinds,domain,why,files,anchors,note='',na=None): P[pid]=dict(title=title,domain=domain,why=why,files=files,note=note,na=na)
exec(open(V+'/dev/proplist.py').read())
ORACLE=json.load(open(V+'/dev/oracle.json'))
o=[open(V+'/dev/design_head.md').read()]
for pid,p in P.items():
    us=engine.parse_units(pid)
    o.append(f"### {pid} {p['title']}\n")
    o.append(f"*Specified against*: {ORACLE.get(pid,'')}\n*Domain*: {p['domain']}. {p['note']}\n*Beyond tests*: {p['why']}\n")
    pr=[u for u in us if u.kind in('full','loops','proof')]; bo=[u for u in us if u.kind=='bounded']
    if pr: o.append('Proved units: '+'; '.join(f"`{u.name}`{' (loop contracts)' if u.kind=='loops' else ''}: {', '.join(u.fns)}"+(f" [thorough]" if u.kv.get('tier')=='thorough' else '') for u in pr)+'.\n')
    if bo: o.append('Bounded stand-ins: '+'; '.join(f"`{u.name}`: {', '.join(u.fns)} – {u.kv.get('bound','')}"+(f" [thorough]" if u.kv.get('tier')=='thorough' else '') for u in bo)+'.\n')
    tr=[]; sb=[]
    for u in us:
        for t in u.trusts:
            if t not in tr: tr.append(t)
        for s in u.substs:
            if s not in sb: sb.append(s)
    if tr: o.append('Assumed:\n'+''.join(f'* {t}\n' for t in tr))
    if sb: o.append('Textual substitutions in the verified copy:\n'+''.join(f'* `{f}`: `{a}` → `{b}`\n' for f,a,b in sb))
t=open(V+'/dev/design_tail.md').read()
rows=[]
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    rows.append(f"| {n} | {j['what_it_breaks']} (needs: {j['needs']}) | {j.get('caught_by',j['property'])} |")
o.append(t.replace('@SEEDS@','\n'.join(rows)))
open(V+'/DESIGN.md','w').write('\n'.join(o))
