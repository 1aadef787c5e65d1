#!/usr/bin/env python3
"""extract.py REPLAY.json DIR: write the library and the first input of an end-to-end case as DIR/xs.xsl, DIR/in.xml"""
import json, os, sys
r = json.load(open(sys.argv[1]))
t = r['case']
os.makedirs(sys.argv[2], exist_ok=True)
i = t.index('<solver')
j = t.index('</core>') + 8
open(sys.argv[2] + '/xs.xsl', 'w').write(t[:i])
open(sys.argv[2] + '/in.xml', 'w').write(t[i:j])
