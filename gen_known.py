#!/usr/bin/env python3
"""Writes known-findings.json; the property of each fix commit is kept here (developer tool, not run by checks)."""
import json, subprocess
P="""c21976c C06
2768deb C07
c72e0e1 C02
9b0053c C06
6e4130c C07
1bef42f C05
b01d871 C05
68e3f22 C02
cc30344 C03
a53f91a C05
4c774d0 C03
cd74521 C07
2e54b08 C19
10b0e15 C19
e140681 C02
41c358e C12
dbf7558 C07
a25bfbc C02
ba8d448 C03
f1214a7 C06
01540b0 C07
f208a5e C06
528c0ae C06
f9c8d28 C07
2bb8fbc C01
68a323b C02
708bd21 C05
1587900 C05
fba1b50 C01
768b368 C05
c1760a0 C07
45658d5 C06
873e771 C06
581f5b1 C06
19035d2 C06
5375881 C04
9ca266a C06
0f08bf8 C06
02e2456 C14
dbe1768 C08
2ebceba C03
7f896aa C04
75b6d02 C04
3aee83f C04
4344f0a C04
36e3ac5 C04
6afa2b7 C09
9e85d32 C16
16899b4 C10
803817a C10
fbe4764 C11
826261f C10
6536ca5 C06
fa086f7 C10
abe541d C13
2cd8741 C08
316715c C05
aec5a43 C15
573eb96 C05
3de01b3 C07
49347af C05
278dae6 C06
3d70525 C07
f2dbe96 C05
741bdf2 C08
58e7d18 C07
5bcc89c C07
93e9e61 C08
a03c27e C12
bbc31d3 C13
41f9a67 C10
bb29472 C05
a2092bf C14
cf2725c C14
78f4eb8 C18
1b41976 C18
91ba726 C18
70d253e C18
ca9f4c4 C18
d29cb78 C18
f358d53 C18
ee3ebe7 C18
db717c1 C18
a20f0d2 C18
211ceca C18
2edee7a C18
0322d17 C14
4b9bac0 C14
a80bbd6 C15
148ad3d C15
d99ad45 C02
4912375 C02
c25c2e9 C15
c6199bb C15
571a72b C15
451b9dc C15
a899163 C15
6c5004a C15
82c643f C15
d501777 C15
a379041 C15
972ed38 C15
03b62ee C18
0cc4ce7 C23
d30a974 C23
ad20645 C23
b5afde3 C09
603f894 C23
a356205 C23
7e63071 C23
9a642da C09
6954a43 C18
64878eb C18
825e8cc C18
bdb512c C18
dc30037 C18
8d29115 C18
4bfeee2 C18
2b0ece3 C18
3353246 C16
d32a5fc C16
9787429 C16
3a90268 C16
29f37e7 C09
53c763f C24
f314fe5 C24
5c0f310 C24
de81c83 C24
820ac88 C18
20f5fbf C20
b457ea9 C20
969e7e1 C20
2f47793 C20
31c30c0 C20
c88354b C20
63f58c8 C20
ff525f4 C20
962a632 C20
0873ed3 C25
c609a8d C25
5014144 C15
b1cf929 C15
""".strip().split("\n")
M=dict(l.split() for l in P)
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h\t%s','b57c52f..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
fx=[]
for l in log:
    h,sub=l.split('\t')
    if h not in M: print('no property for', l); continue
    fx.append('fixed: property=%s %s %s'%(M[h],h,sub[5:]))
K=[
 dict(id='string-set-unanchored-ids',property='C19',**{'class':'wrong-string-set-unanchored-ids'},match='.',what='an automaton built by re_strings_build() without RE_STRINGS_ANCHOR_RIGHT from strings which carry ids stops accepting once the input goes on after such a string: the state for a string with an id is not a sink, although without ids it is (src/libre/ac.c trie_to_fsm_state)'),
 dict(id='group-edges-text-not-readable',property='C11',**{'class':'roundtrip-refused-grouped'},match='without group_edges it is accepted',what='the text form printed with the group_edges option is not accepted by fsm_parse, which has no syntax for ranges of labels (src/libfsm/print/fsm.c, src/libfsm/parser.sid)'),
]
json.dump(dict(known=K,fixed=fx),open('known-findings.json','w'),indent=1)
