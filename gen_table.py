#!/usr/bin/env python3
"""regenerates harness/src/table.rs and the module list of main.rs (development aid)"""
import re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/harness/src")
names=[]
for f in sorted(glob.glob('h_*.rs')):
    for m in re.finditer(r'pub extern "C" fn (h_\w+)',open(f).read()): names.append((f[:-3],m.group(1)))
open('table.rs','w').write("table! {\n"+"".join("    %s::%s,\n"%n for n in names)+"}\n")
m=open('main.rs').read()
m=re.sub(r'(mod h_\w+;\n)+',''.join("mod %s;\n"%f[:-3] for f in sorted(glob.glob('h_*.rs'))),m)
open('main.rs','w').write(m)
