#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.md.in: puts in the table of planted bugs."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set('generation-u16 subst-move-closure keyframes-finite vec-ref-4096 unregister-batch contract-id-nocase reverse-window queue-64k utf16-64k rvec-get-u16 keyframes-u16 slice-eq-ptr field-index-u8 keyframes-copy-first mangle-repeated subst-attr-first bborrow-mut-alone object-index-narrow'.split())
rows = ['| planted bug | caught by | what it needs |', '|---|---|---|']
all_ = {d: json.load(open(f'{here}/seeded/{d}/meta.json')) for d in os.listdir(f'{here}/seeded')}
for d, m in sorted(all_.items(), key=lambda x: (x[1]['property'], x[0])):
    rows.append(f"| {d}{'*' if d in missed else ''} | {m['property']} | {m['needs']} |")
t = open(f'{here}/tools/DESIGN.md.in').read().replace('@SEEDED@', '\n'.join(rows))
open(f'{here}/DESIGN.md', 'w').write(t)
