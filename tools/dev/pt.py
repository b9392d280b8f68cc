import os
def patch(path, *prs):
    p='/repo/'+path
    s=open(p,newline='',encoding='latin-1').read()
    cr='\r\n' in s
    for a,b in prs:
        n=1
        if cr: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
        assert s.count(a)==n, (path, s.count(a), a)
        s=s.replace(a,b)
    open(p,'w',newline='',encoding='latin-1').write(s)
