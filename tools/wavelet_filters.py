"""How mc/filters.json was made (python3-vt): Daubechies filters by spectral factorisation; the choice of roots of the symlets is the one that
reproduces the tables of /repo/pmesh/_window_wavelets.h at the commit it was made from."""
import re, sys, itertools
import numpy as np, mpmath as mp
mp.mp.dps = 60
def table(name):
    s=open('/repo/pmesh/_window_wavelets.h').read()
    m=re.search(r'_%s_table\[\] = \{(.*?)\};'%name,s,re.S)
    return np.array([float(x) for x in m.group(1).split(',')])
def roots(N):
    # P(y)=sum C(N-1+k,k) y^k, y=(2-z-1/z)/4
    c=[mp.binomial(N-1+k,k) for k in range(N)]
    r=mp.polyroots(c[::-1],maxsteps=2000,extraprec=400) if N>1 else []
    groups=[]
    used=[False]*len(r)
    for i,y in enumerate(r):
        if mp.im(y)< -mp.mpf(10)**-30: continue
        b=2-4*y
        d=mp.sqrt(b*b-4)
        z=(b+d)/2
        if abs(z)>1: z=1/z
        groups.append((z, abs(mp.im(y))>mp.mpf(10)**-30))
    return groups
def filt(N, groups, choice):
    p=[mp.mpf(1)]
    def mul(a,b):
        out=[mp.mpc(0)]*(len(a)+len(b)-1)
        for i,x in enumerate(a):
            for j,y in enumerate(b): out[i+j]+=x*y
        return out
    for _ in range(N): p=mul(p,[1,1])
    for (z,c),ch in zip(groups,choice):
        if ch: z=1/z
        p=mul(p,[1,-z])
        if c: p=mul(p,[1,-mp.conj(z)])
    p=[mp.re(x) for x in p]
    s=sum(p)
    return np.array([float(x*mp.sqrt(2)/s) for x in p])
def phi(h,level=8):
    v=np.array([1.0])
    for _ in range(level):
        u=np.zeros(2*len(v)-1); u[::2]=v
        v=np.convolve(u,h)
    return v*2**(level/2.)
def tab(h):
    # as pywt pads
    p=phi(h)
    return p
if __name__=='__main__':
    out={}
    for name in ('db6','db12','db20','sym6','sym12','sym20'):
        T=table(name); N=int(re.sub(r'\D','',name))
        g=roots(N)
        best=None
        ch_all=[(0,)*len(g),(1,)*len(g)] if name[0]=='d' else itertools.product((0,1),repeat=len(g))
        for ch in ch_all:
            h=filt(N,g,ch)
            p=phi(h)
            q=np.concatenate([[0],p,[0]*64]); q=(q[1:]+q[:-1])*.5
            i=0
            while abs(q[i])<2e-3: i+=1
            for off in (0,1,-1):
                seg=q[max(0,i+off):i+off+len(T)]
                if len(seg)<len(T): seg=np.pad(seg,(0,len(T)-len(seg)))
                e=abs(seg-T).max()
                if best is None or e<best[0]: best=(e,ch,off,h)
        print(name,len(T),best[:3],flush=True)
        out[name]=best[3].tolist()
    import json; json.dump(out,open('filters.json','w'))
