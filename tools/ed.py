import sys
f,a,b=sys.argv[1:]
s=open(f).read()
assert s.count(a)==1,(f,s.count(a))
open(f,'w').write(s.replace(a,b))
