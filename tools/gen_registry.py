#!/usr/bin/env python3
"""Authoring-time only: emit harness/src/gen/reg_<ver>.rs (committed) - the table of every public
schema type of a protocol version, its parse/serialize hooks and, for unions, a variant-name function.
Works from the spec files plus the public enum declarations."""
import json, re
VERS=['2024_11_05','2025_03_26','2025_06_18','2025_11_25','2026_07_28','draft']
for ver in VERS:
    spec=json.load(open(f'/verif/spec/{ver}.json'))['types']
    src=open(f'/repo/src/generated_schema/{ver}/mcp_schema.rs').read()
    out=['// generated by tools/gen_registry.py at authoring time; committed; not regenerated by checks','use crate::reg::{entry, Entry};',f'use rust_mcp_schema::mcp_{ver} as s;','','pub fn entries() -> Vec<Entry> {','    vec![']
    for n,t in spec.items():
        if t['kind']=='type':
            m=re.search(r'#\[deprecated[^\n]*\]\s*\npub type %s '%n, src)
            if m: continue
            if n=='GenericResult': continue
        if t['kind']=='enum':
            m=re.search(r'^pub enum %s \{\n(.*?)^\}'%n, src, re.S|re.M)
            vs=re.findall(r'^    (\w+)(\(|,)', m.group(1), re.M)
            arms=', '.join(f's::{n}::{v}{"(..)" if k=="(" else ""} => "{v}"' for v,k in vs)
            f=f'Some(|x: &s::{n}| match x {{ {arms} }})'
        else: f='None'
        out.append(f'        entry!(s::{n}, "{n}", {f}),')
    out+=['    ]','}','']
    open(f'/verif/harness/src/gen/reg_{ver}.rs','w').write('\n'.join(out))
    # trimmed spec for embedding
