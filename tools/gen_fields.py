#!/usr/bin/env python3
"""Authoring-time only: emit harness/src/gen/fld_<ver>.rs (committed): every public member of every public
struct with the schema member it stands for. The checks never run it."""
import json, re
VERS=['2024_11_05','2025_03_26','2025_06_18','2025_11_25','2026_07_28','draft']
def snake(k):
    k=k.lstrip('_$').replace('/','_').replace('.','_').replace('-','_').replace(':','_')
    k=re.sub(r'(?<=[a-z0-9])([A-Z])', lambda m:'_'+m.group(1).lower(), k)
    return k.lower()
for ver in VERS:
    spec=json.load(open(f'/verif/spec/{ver}.json'))['types']
    src=open(f'/repo/src/generated_schema/{ver}/mcp_schema.rs').read()
    def props(n):
        sch=spec[n]['schema']; out={}
        def walk(s,d=0):
            if not isinstance(s,dict) or d>4: return
            out.update(s.get('properties',{}))
            for k in ('allOf','anyOf'):
                for b in s.get(k,[]): walk(b,d+1)
            if '$ref' in s:
                r=s['$ref'].split('/')[-1]
                if r in spec: walk(spec[r]['schema'],d+1)
        walk(sch); return out
    o=['// generated by tools/gen_fields.py at authoring time; committed; not regenerated by checks','use crate::tab::Field;','use crate::ver::s;','use serde_json::to_value;','','#[allow(deprecated)]','pub fn fields() -> Vec<Field> {','    vec![']
    odd=[];n=0
    for m in re.finditer(r'^pub struct (\w+) \{\n(.*?)^\}', src, re.S|re.M):
        T,body=m.groups()
        if T not in spec: odd.append(T); continue
        ps={snake(j):k for k in props(T) for j in (k, k.removeprefix('io.modelcontextprotocol/'))}
        fl=re.findall(r'^    ((?:#\[serde\(.*?\)\]\s*)?)pub (\w+):', re.sub(r'(?s)/\*\*.*?\*/|^\s*///[^\n]*\n','',body), re.S|re.M)
        rows=[]
        for m2 in re.finditer(r'^    pub (\w+):', body, re.M):
            f=m2.group(1); key=ps.get(f.rstrip('_'))
            if f=='extra' and key is None: key='*'
            if f=='message' and key is None: key=f
            if key is None: odd.append((T,f)); continue
            rows.append(f'("{key}", |x| to_value(&x.{f}).ok())'); n+=1
        if rows: o.append(f'        Field::new::<s::{T}>("{T}", vec![{", ".join(rows)}]),')
    o+=['    ]','}','']
    open(f'/verif/harness/src/gen/fld_{ver}.rs','w').write('\n'.join(o))
    print(ver,n,odd)
