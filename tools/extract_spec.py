#!/usr/bin/env python3
"""Authoring-time only: extract, per protocol version, the official JSON schemas that the generator
embedded in the doc comments of src/generated_schema/<ver>/mcp_schema.rs.  The result is committed
under /verif/spec and is what the checks use as their oracle; no check runs this script."""
import json, re, sys, os
base = sys.argv[1] if len(sys.argv) > 1 else '/repo/src/generated_schema'
out = sys.argv[2] if len(sys.argv) > 2 else '/verif/spec'
for ver in ['2024_11_05','2025_03_26','2025_06_18','2025_11_25','2026_07_28','draft']:
    lines = open(f'{base}/{ver}/mcp_schema.rs').read().split('\n')
    types = []
    i = 0
    while i < len(lines):
        m = re.match(r'^pub (struct|enum|type) (\w+)', lines[i])
        if m and not lines[i].startswith(' '):
            # walk back over attributes and docs
            j = i - 1
            attrs, docs = [], []
            while j >= 0 and (lines[j].startswith('///') or lines[j].startswith('#[')):
                if lines[j].startswith('///'): docs.append(lines[j][3:].removeprefix(' '))
                else: attrs.append(lines[j])
                j -= 1
            docs.reverse(); attrs.reverse()
            doc = '\n'.join(docs)
            mm = re.search(r'```json\n(.*?)\n```', doc, re.S)
            schema = None
            if mm:
                try: schema = json.loads(mm.group(1))
                except Exception as e: print(ver, m.group(2), 'bad json', e)
            types.append({'name': m.group(2), 'kind': m.group(1), 'attrs': attrs, 'schema': schema})
        i += 1
    print(ver, len(types), sum(t['schema'] is not None for t in types), [t['name'] for t in types if t['schema'] is None])
    json.dump({'version': ver, 'types': {t['name']: t for t in types}}, open(f'{out}/{ver}.json','w'), indent=1)
