#!/usr/bin/env python3
"""Generates harness/ua/C03_table.go from the OPC UA binary schema (schema/Opc.Ua.Types.bsd) and, for the Go spelling of the names,
ua/structs.generated.go. The output is committed: it is the oracle (the schema's field order and types), not derived from the tree at check time."""
import re,xml.etree.ElementTree as ET,sys
ns={'o':'http://opcfoundation.org/BinarySchema/'}
t=ET.parse('/repo/schema/Opc.Ua.Types.bsd').getroot()
S={}
for st in t.findall('o:StructuredType',ns):
    fs=st.findall('o:Field',ns)
    lens={f.get('LengthField') for f in fs if f.get('LengthField')}
    S[st.get('Name')]=[(f.get('Name'),f.get('TypeName'),f.get('LengthField') is not None) for f in fs if f.get('Name') not in lens]
E={}
for st in t.findall('o:EnumeratedType',ns): E[st.get('Name')]=int(st.get('LengthInBits'))
src=open('/repo/ua/structs.generated.go').read()
ids=dict(re.findall(r"(ObjectID\w+EncodingDefaultBinary)\s+NodeID = NewNodeIDNumeric\(0, (\d+)\)",open("/repo/ua/nodeids.generated.go").read()))
G={}
for m in re.finditer(r'type (\w+) struct \{\n(.*?)\}',src,re.S):
    G[m[1]]=[tuple(l.split()) for l in m[2].strip().split('\n') if l.strip()]
reg=re.findall(r'RegisterBinaryEncodingID\(reflect.TypeOf\(\(\*(\w+)\)\(nil\)\).Elem\(\), NewExpandedNodeID\((\w+)\)\)',src)
print(len(S),len(G),len(reg),file=sys.stderr)
low={k.lower():k for k in S}
elow={k.lower():v for k,v in E.items()}
glow={k.lower():k for k in G}
out=[]
for g,f in G.items():
    s=S[low[g.lower()]]
    n1=[x[0].lower() for x in f];n2=[x[0].lower() for x in s]
    if n1!=n2: print("differ",g,n1,n2,file=sys.stderr)
    fl=[]
    for a,b in zip(f,s):
        ty=b[1].split(':')[1]
        if ty in E: k='enum%d'%E[ty]
        elif ty.lower() in glow: k='struct '+glow[ty.lower()]
        else: k=ty
        gt=a[-1] if len(a)>1 else a[0]
        if b[2]!=gt.startswith('[]'): print("array?",g,a,b,file=sys.stderr)
        fl.append('{"%s", "%s", %s}'%(a[0],k,'true' if b[2] else 'false'))
    rid=[v for t_,v in reg if t_==g]
    out.append((g,fl,rid[0] if rid else None))
kinds=set()
for g,fl,_ in out:
    for x in fl: kinds.add(x.split('"')[3].split()[0])
print(sorted(kinds),[o[0] for o in out if not o[2]],file=sys.stderr)
print('''package ua

// Generated by tools/gen_c03.py from schema/Opc.Ua.Types.bsd: the fields of every structured type in schema order.

type vpField struct {
	name, kind string
	array      bool
}

type vpStruct struct {
	name   string
	id     uint32
	mk     func() any
	fields []vpField
}

var vpStructs = []vpStruct{''')
for g,fl,rid in out:
    print('\t{"%s", %s, func() any { return new(%s) }, []vpField{%s}},'%(g,('%s'%ids[rid]) if rid else '0',g,', '.join(fl)))
print('}')
