# rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json ("caught" texts are kept here)
import json,os,re
C={l.split(None,1)[0]:l.split(None,1)[1] for l in '''
c01-tuple-pool crash (ASan), wrong-result
c02-wide-destinations transform-changes-language (`big`)
c03-minimise-last-id wrong-ids
c05-clone-ids wrong-clone
c06-generate-abandoned leak
c07-edge-groups-ceiling crash (ASan)
c08-static-parse-state compile-differs
c04-first-output wrong-notifications
c09-branch-range assertion, vm-differs (`big`)
c10-transient-write print-incomplete
c11-grown-table roundtrip-refused, roundtrip-differs (`big`)
c12-static-buffer race
c13-static-comment race
c14-cursor-outside-lock race
c15-empty-line lexer position
c16-self-edge-room crash (ASan)
c17-limit-equal limit-wrong
c18-failed-operation false-success:fsm:memory
c19-last-byte wrong-string-set
c23-signed-bytes generated-differs (llvm)
c25-high-bytes description-broken (json, irjson)
c24-paired-states captures-wrong
c20-nested-counts wrong-meaning
c22-nullable-alternatives wrong-anchoring
'''.strip().split('\n')}
rows=['| planted | property | needs | reported as |','|---|---|---|---|']
for i in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%i))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),C.get(i,'caught')))
s=open('DESIGN.md').read()
t='<!-- plants -->\n'+'\n'.join(rows)+'\n<!-- /plants -->'
s=s.replace('@PLANTS@',t) if '@PLANTS@' in s else re.sub(r'<!-- plants -->.*?<!-- /plants -->',lambda _:t,s,flags=re.S)
open('DESIGN.md','w').write(s)
