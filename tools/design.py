import re,json,os
V='/verif'
head=open(V+'/DESIGN.md').read().split('Limits that apply everywhere')[0]
head=head.replace("(span-fixpoint recogniser and span derivations `cfg.go`, regular expression derivatives\n   `lexoracle.go`, canonical LR(1) automaton `lroracle.go`).","(span-fixpoint recogniser and span derivations `cfg.go`, one NFA per token `lexoracle.go`,\n   canonical LR(1) automaton `lroracle.go`, reader of the grammar notation `notation.go`).")
body=open(V+'/tools/design_body.md').read()
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append((m['property'],d,m['what_it_breaks'],m['needs']))
rows.sort()
t='\n'.join(f'| {d} | {b.strip()} | {n.strip()} | {p} |' for p,d,b,n in rows)
open(V+'/DESIGN.md','w').write(head+body.replace('@TABLE@',t).replace('REPAIRED',str(len(re.findall('(?m)^fixed:',open(V+'/KNOWN_FINDINGS.txt').read())))))
