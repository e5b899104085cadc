#!/usr/bin/env python3
"""ed.py FILE: stdin holds blocks '<<<<\nold\n====\nnew\n>>>>\n'; replaces each exactly once, keeping the file's line ends."""
import sys,re
p=sys.argv[1]; s=open(p,newline='').read(); crlf='\r\n' in s
t=s.replace('\r\n','\n')
for m in re.finditer(r'<<<<\n(.*?)\n====\n(.*?)\n?>>>>',sys.stdin.read(),re.S):
    o,n=m.group(1),m.group(2)
    if t.count(o)!=1: sys.exit(f"{p}: found {t.count(o)} times: {o[:120]!r}")
    t=t.replace(o,n)
open(p,'w',newline='').write(t.replace('\n','\r\n') if crlf else t)
