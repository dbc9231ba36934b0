#!/usr/bin/env python3
"""Offline: writes harness/tables.go from workers built on the pristine tree.
usage: mktables.py ops WORKER... | alias WORKER..."""
import json,subprocess,sys,re
out='/verif/harness/tables.go'
def load(w,f): return json.loads(subprocess.run([w,f],capture_output=True,check=True).stdout)
mode,ws=sys.argv[1],sys.argv[2:]
src=open(out).read()
if mode=='ops':
    ds=[load(w,'-dump-methods')['good'] for w in ws]
    t={k:sorted(set(v).intersection(*[set(d[k]) for d in ds])) for k,v in ds[0].items()}
    body='var opTable = map[string][]string{\n'
    for k in sorted(t):
        body+='\t"%s": {\n'%k+''.join('\t\t"%s",\n'%o for o in t[k])+'\t},\n'
    body+='}\n'
    rest=src[src.index('var aliasTable'):]
    src='//go:build go1.22\n\npackage main\n\n// Written by tools/mktables.py.\n\n'+body+'\n'+rest
else:
    ds=[load(w,'-gen-alias') for w in ws]
    keys=[k for k in ds[0]['ok'] if all(d['ok'].get(k) for d in ds)]
    # documented: inputs and outputs of these should not overlap
    pro=re.compile(r'/(.*\.)?(MonomialMul(Add|Sub)?|Permute(Add|Sub)?)(Poly|FFTPoly|GLWE|FFTGLWE)To/')
    keys=sorted(k for k in keys if not pro.search(k))
    body='var aliasTable = map[string]bool{\n'+''.join('\t"%s": true,\n'%k for k in keys)+'}\n'
    src=src[:src.index('var aliasTable')]+body
    print(len(keys),'alias pairs'); 
    print('not safe:',sorted(k for k,v in ds[0]['ok'].items() if not v))
open(out,'w').write(src)
subprocess.run(['gofmt','-l','-w',out])
