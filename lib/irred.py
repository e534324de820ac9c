"""irreducibility of polynomials modulo a prime"""


def pm(a,b,p):
    r=[0]*(len(a)+len(b)-1)
    for i,x in enumerate(a):
        if x:
            for j,y in enumerate(b): r[i+j]=(r[i+j]+x*y)%p
    return r


def rem(a,f,p):
    a=a[:]; n=len(f)-1; iv=pow(f[-1],-1,p)
    for i in range(len(a)-1,n-1,-1):
        c=a[i]*iv%p
        if c:
            for j in range(n+1): a[i-n+j]=(a[i-n+j]-c*f[j])%p
    a=a[:n]
    while a and a[-1]==0:a.pop()
    return a


def gcd(a,b,p):
    while b: a,b=b,rem(a,b,p)
    return a


def powx(b,e,f,p):
    r=[1]
    while e:
        if e&1: r=rem(pm(r,b,p),f,p)
        b=rem(pm(b,b,p),f,p) if b else []
        e>>=1
    return r


def comp(a,b,f,p): # a(b) mod f
    r=[]
    for c in reversed(a):
        r=rem(pm(r,b,p),f,p) if r else []
        if r: r[0]=(r[0]+c)%p
        else: r=[c]
        while r and r[-1]==0:r.pop()
    return r


def irred(f,p):
    n=len(f)-1
    xp=[0,1]; pw={0:[0,1]}
    q=powx([0,1],p,f,p); cur=q; 
    fr=[None,q]
    for i in range(2,n+1): cur=comp(cur,q,f,p); fr.append(cur)
    if fr[n]!=[0,1]: return False
    for l in [l for l in range(2,n+1) if n%l==0 and all(l%k for k in range(2,l))]:
        d=fr[n//l][:]+[0]*(2-len(fr[n//l]))
        d[1]=(d[1]-1)%p
        while d and d[-1]==0:d.pop()
        if len(gcd(f,d,p))!=1: return False
    return True


def charpoly(d,p):
    n=len(d)
    full=[1]
    for x in d: full=pm(full,[-x%p,1],p)
    s=full[:]
    for i in range(n):
        q=[1]
        for j,x in enumerate(d):
            if j!=i: q=pm(q,[-x%p,1],p)
        for k in range(n): s[k]=(s[k]-q[k])%p
    return s
