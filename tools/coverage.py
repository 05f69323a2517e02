#!/usr/bin/env python3
"""Functions of /repo/src (outside tests) and whether a contract names them."""
import re,glob,os
S='/repo/src'
specs=''.join(open(f).read() for f in sorted(glob.glob('/verif/vx/specs/*.vspec')))
have=set()
for m in re.finditer(r'^=== fn (\S+) (\S+)',specs,re.M):
    have.add((m.group(1),m.group(2).split('::')[-1]))
tot=cov=0
for root,_,fs in os.walk(S):
    for f in sorted(fs):
        if not f.endswith('.rs') or f=='proptest.rs': continue
        t=open(os.path.join(root,f)).read().split('#[cfg(test)]\nmod test')[0].split('#[cfg(test)]\npub(crate) mod test')[0]
        mod=f[:-3]
        names=re.findall(r'^\s*(?:pub(?:\([^)]*\))? )?(?:const )?(?:unsafe )?fn (\w+)',t,re.M)
        mods={m for m,_ in have if m.split('/')[-1].split('::')[-1]==mod or m==mod}
        rel=os.path.relpath(os.path.join(root,f),S)[:-3]
        key=[m for m,_ in have if m.replace('::','/')==rel or m==mod]
        h=[n for n in names if any((k,n) in have for k in set(key))]
        miss=[n for n in names if n not in h]
        tot+=len(names);cov+=len(h)
        print(f'{rel}: {len(h)}/{len(names)} missing: {" ".join(miss)}')
print(cov,'/',tot)
