import sys,re,collections
n=collections.Counter();t=collections.Counter();pp=collections.Counter()
for l in sys.stdin:
    m=re.search(r'proved #\d+: (.*?) \[.*\] (\S+) ([\d.]+)s \(([\d.]+)s prep, (\d+)',l)
    if not m:
        if 'NOT PROVED' in l or 'oblig' in l or l.startswith('real'): print(l.strip()[:200])
        continue
    k=(m.group(1)[:30],m.group(2)); n[k]+=1; t[k]+=float(m.group(3)); pp[k]+=float(m.group(4))
for k in sorted(t,key=lambda k:-t[k]-pp[k])[:12]: print(k,n[k],round(t[k],1),'prep',round(pp[k],1))
