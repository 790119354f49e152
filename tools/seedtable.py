#!/usr/bin/env python3
"""Prints the table of seeded changes for DESIGN.md."""
import json,glob,os
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded','*'))):
    m=json.load(open(d+'/meta.json')); print(f"| {m['property']} | {os.path.basename(d)} | {m['needs']} | {m['what_it_breaks']} |")
