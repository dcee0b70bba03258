#!/usr/bin/env python3
"""Authoring-time only: emit harness/src/gen/tab_<ver>.rs (committed) - the tables of conversions,
constructors, getters and enum printers of a protocol version's public API, each with the relation that
must hold (which union member a value has to land in, which wire member a getter reads).
Works from the public declarations; the checks never run it."""
import json, re, collections
VERS=['2024_11_05','2025_03_26','2025_06_18','2025_11_25','2026_07_28','draft']
GROUP={'2024_11_05':'A','2025_03_26':'A','2025_06_18':'A','2025_11_25':'B','2026_07_28':'C','draft':'C'}
def clean(t): return t.replace('::std::vec::','').replace('::std::string::','').replace('::serde_json::','serde_json::').replace('::std::option::','').strip()
for ver in VERS:
    spec=json.load(open(f'/verif/spec/{ver}.json'))['types']
    srcS=open(f'/repo/src/generated_schema/{ver}/mcp_schema.rs').read()
    srcU=open(f'/repo/src/generated_schema/{ver}/schema_utils.rs').read()
    srcU=srcU.split('#[cfg(test)]')[0] if False else srcU
    aliases=dict(re.findall(r'^pub type (\w+) = (\w+);', srcS+srcU, re.M))
    def canon(t):
        t=clean(t)
        while t in aliases: t=aliases[t]
        return t
    enums={}   # name -> (mod, [(variant, payload or None)])
    structs={}
    for mod,src in (('s',srcS),('u',srcU)):
        for m in re.finditer(r'^pub enum (\w+) \{\n(.*?)^\}', src, re.S|re.M):
            vs=re.findall(r'^    (\w+)(?:\(([^\n]*)\)| (\{))?', m.group(2), re.M)
            enums[m.group(1)]=(mod,[(v,canon(p) if p else '{}' if b else None) for v,p,b in vs])
        for m in re.finditer(r'^pub struct (\w+)(?: \{\n(.*?)^\}|\((.*?)\);)', src, re.S|re.M):
            structs[m.group(1)]=(mod,re.findall(r'^    (pub )?(\w+):(?: ([^\n]*?),?)?$', (m.group(2) or ''), re.M))
    def q(t):
        t=canon(t)
        m=re.match(r'Vec<(.*)>$',t)
        if m: return f'Vec<{q(m.group(1))}>'
        if t in enums: return f'{enums[t][0]}::{t}'
        if t in structs: return f'{structs[t][0]}::{t}'
        if t in('String','i64','bool'): return t
        return None
    o=['// generated by tools/gen_tables.py at authoring time; committed; not regenerated by checks','#![allow(clippy::all)]','use crate::tab::*;','use crate::ver::{s, u};','use serde_json::json;','']
    tagged=[e for e,(m,vs) in enums.items() if any(p for _,p in vs)]
    units=[e for e,(m,vs) in enums.items() if vs and not any(p for _,p in vs)]
    for e in tagged:
        mod,vs=enums[e]
        arms=[]
        for v,p in vs:
            if p == '{}': arms.append(f'{mod}::{e}::{v}{{..}} => "{v}".to_string()')
            elif p is None: arms.append(f'{mod}::{e}::{v} => "{v}".to_string()')
            elif p in tagged: arms.append(f'{mod}::{e}::{v}(x) => format!("{v}/{{}}", x.vpath())')
            else: arms.append(f'{mod}::{e}::{v}(..) => "{v}".to_string()')
        o.append(f'impl VPath for {mod}::{e} {{ fn vpath(&self) -> String {{ match self {{ {", ".join(arms)} }} }} }}')
    holders={}
    for T,(mod,fs) in structs.items():
        for p,f,t in fs:
            if p and mod=='u' and f in('request','notification','result') and canon(t) in tagged:
                o.append(f'impl VPath for {mod}::{T} {{ fn vpath(&self) -> String {{ self.{f}.vpath() }} }}'); holders[T]=canon(t)
    o=[l.replace('=> "','=> "') for l in o]
    for i,l in enumerate(o):
        for T in holders:
            l=re.sub(r'(\w+)::(\w+)::(\w+)\(\.\.\) => "\w+"\.to_string\(\)', lambda m: (f'{m.group(1)}::{m.group(2)}::{m.group(3)}(x) => format!("{m.group(3)}/{{}}", x.vpath())' if dict(enums[m.group(2)][1]).get(m.group(3))==T else m.group(0)), l)
        o[i]=l
    def path(e,x,depth=0):
        """all paths in union e whose payload is x"""
        r=[]
        for v,p in enums[e][1]:
            if p==x: r.append([v])
            elif p in tagged and depth<4: r+= [[v]+s for s in path(p,x,depth+1)]
        r.sort(key=len)
        return r
    # value types of B/C request payloads differ (params), so only payload matches count
    froms=[];trys=[];frommsg=[];tomsg=[]
    for src in (srcS,srcU):
        for m in re.finditer(r'^impl\s+(?:::std::convert::|std::)?(From|TryFrom|FromMessage|ToMessage)<(.*?)>\s+for\s+([^{\n]+?)\s*\{', src, re.M):
            tr,a,t=m.groups()
            {'From':froms,'TryFrom':trys,'FromMessage':frommsg,'ToMessage':tomsg}[tr].append((canon(a),canon(t)))
    o.append('\npub fn convs() -> Vec<Conv> {\n    vec![')
    odd=[];seen=set()
    for a,t in froms:
        qa,qt=q(a),q(t)
        if not qa or not qt or (a,t) in seen: odd.append((a,t)); continue
        seen.add((a,t))
        if a in('i64','bool','String') or a.startswith('Vec<&') : odd.append((a,t)); continue
        if t in('i64','CallToolResult','MessagesFromClient','MessagesFromServer','RpcError') : odd.append((a,t)); continue
        if a in('MessageFromServer','MessageFromClient','CallToolError','ClientTaskResult') or t in('CustomRequest',): odd.append((a,t)); continue
        if GROUP[ver]!='A' and (t in('RequestFromClient','NotificationFromClient','RequestFromServer','NotificationFromServer') or (t.startswith('MessageFrom') and a[:7] in('Request','Notific'))): odd.append((a,t)); continue
        if t in tagged:
            if a in tagged and not path(t,a):
                odd.append((a,t)); continue
            ps=path(t,a)
            if not ps: 
                # group A: ClientJsonrpcNotification etc. or aliases
                odd.append((a,t,'nopath')); continue
            p='/'.join(ps[0])
            vf='|y| y.vpath()'
        else: p='';vf='|_| String::new()'
        o.append(f'        Conv::new::<{qa}, {qt}>("{a}", "{t}", "{p}", {vf}),')
    o.append('    ]\n}\n')
    o.append('pub fn trys() -> Vec<TryConv> {\n    vec![')
    for a,t in trys:
        qa,qt=q(a),q(t)
        if not qa or not qt or a not in tagged: odd.append(('try',a,t)); continue
        ps=path(a,t)
        if not ps: odd.append(('try',a,t,'nopath')); continue
        o.append(f'        TryConv::new::<{qa}, {qt}>("{a}", "{t}", "{"/".join(ps[0])}", |y| y.vpath()),')
    o.append('    ]\n}\n')
    o.append('pub fn tomsgs() -> Vec<ToMsg> {\n    vec![')
    for a,t in frommsg:
        if a.startswith('MessageFrom'): continue
        kind='req' if a.endswith('Request') else 'not' if a.endswith('Notification') else 'res'
        has=(t,a) in tomsg
        to=f'Some(|x: {q(a)}, id| u::ToMessage::<{q(t)}>::to_message(x, id))' if has else 'None'
        o.append(f'        ToMsg::new::<{q(a)}, {q(t)}>("{a}", "{t}", "{kind}", {to}),')
    o.append('    ]\n}\n')
    # constructors and getters
    o.append('pub fn news() -> Vec<New> {\n    vec![')
    getters=[]
    for m in re.finditer(r'^impl (\w+) \{\n(.*?)^\}', srcS, re.S|re.M):
        T,body=m.groups()
        if T in aliases or T not in structs and T not in enums: continue
        mod='s'
        mm=re.search(r'pub fn new\((.*?)\) -> Self', body, re.S)
        if mm and T in structs:
            args=re.findall(r'(\w+): (?=[^,()]*)', re.sub(r'\s+',' ',mm.group(1)))
            fields=[f for _,f,_ in structs[T][1]]
            pubf=[f for p,f,_ in structs[T][1] if p]
            if all(a in pubf for a in args):
                dropped=[f for f in pubf if f not in args]
                o.append(f'        New::new::<s::{T}>("{T}", &{json.dumps(dropped)}, |x| s::{T}::new({", ".join("x.%s.clone()"%a for a in args)})),')
                if dropped: odd.append(('new-dropped',T,dropped))
            else: odd.append(('new',T,args,fields))
        for g,k in (('method','method'),('type_','type'),('mode','mode'),('code','code'),('jsonrpc','jsonrpc')):
            if re.search(r'pub fn %s\(&self\)'%g, body):
                st=f'{g.rstrip("_")}_value'
                if g=='type_': st='type_value'
                has=re.search(r'pub fn %s\(\)'%st, body)
                nm=f'{st[:-6]}_name'
                hasn=re.search(r'pub fn %s\(\)'%nm, body)
                sv=[]
                if has: sv.append(f'json!(s::{T}::{st}())')
                if hasn: sv.append(f'json!(s::{T}::{nm}())')
                getters.append(f'        Getter::new::<s::{T}>("{T}", "{k}", |x| json!(x.{g}()), || vec![{", ".join(sv)}]),')
    o.append('    ]\n}\n')
    o.append('#[allow(deprecated)]\npub fn getters() -> Vec<Getter> {\n    vec!['); o+=getters; o.append('    ]\n}\n')
    o.append('pub fn defaults() -> Vec<(&\'static str, fn() -> serde_json::Value)> {\n    vec![')
    for mod,src in (('s',srcS),('u',srcU)):
        for m in re.finditer(r'derive\(([^)]*)\)\]\n(?:#\[[^\n]*\]\n)*pub struct (\w+)', src):
            if re.search(r'\bDefault\b',m.group(1)) and 'Serialize' in m.group(1): o.append(f'        ("{m.group(2)}", || json!({mod}::{m.group(2)}::default())),')
    o.append('    ]\n}\n')
    disp=set(re.findall(r'^impl (?:::std::fmt::|core::fmt::)?Display for (\w+)', srcS+srcU, re.M))
    fstr=set(re.findall(r'^impl (?:::std::str::)?FromStr for (\w+)', srcS+srcU, re.M))
    o.append('pub fn printers() -> Vec<Printer> {\n    vec![')
    for e in units:
        if e in disp and e in spec:
            eq=re.search(r'derive\([^)]*PartialEq[^)]*\)\]\s*(?:#\[[^\n]*\]\s*)*pub enum %s \{'%e, srcS)
            fs=f'Some(|t: &str| t.parse::<s::{e}>().ok())' if e in fstr else 'None'
            o.append(f'        Printer::{"new" if eq else "plain"}::<s::{e}>("{e}", {fs}),')
        else: odd.append(('unit',e,e in disp))
    o.append('    ]\n}\n')
    open(f'/verif/harness/src/gen/tab_{ver}.rs','w').write('\n'.join(o))
    print(ver, 'ODD'); 
    for x in odd: print('   ',x)
