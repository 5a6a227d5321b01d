#!/usr/bin/env python3
"""Generates spec/constants.qnt.

* BN254 Poseidon (t=4, RF=8, RP=56): round constants and MDS matrix are derived from the Grain LFSR of
  the Poseidon reference implementation - independent of the tables in the repository (which use the
  optimised, sparse form).
* Goldilocks Poseidon (t=12, RF=8, RP=22): the 360 textbook round constants and the circulant/diagonal
  MDS as published by Plonky2, pinned (tools/gl_round_constants.txt). The repository's fast partial
  round tables are not used by the specification.
"""
import os
R=21888242871839275222246405745257275088548364400416034343698204186575808495617
P=2**64-2**32+1
here=os.path.dirname(os.path.abspath(__file__))
def grain(field,sbox,n,t,rf,rp):
    bits=[]
    for v,w in ((field,2),(sbox,4),(n,12),(t,12),(rf,10),(rp,10)): bits+= [int(b) for b in bin(v)[2:].zfill(w)]
    bits+=[1]*30
    def step():
        nb=bits[62]^bits[51]^bits[38]^bits[23]^bits[13]^bits[0]
        bits.pop(0); bits.append(nb); return nb
    for _ in range(160): step()
    while True:
        b=step()
        while b==0:
            step(); b=step()
        yield step()
def bn254():
    g=grain(1,0,254,4,8,56)
    def rnd(): return int("".join(str(next(g)) for _ in range(254)),2)
    rc=[]
    while len(rc)<64*4:
        v=rnd()
        if v<R: rc.append(v)
    # MDS: Cauchy from further bits (mod p as in the sage script)
    while True:
        l=[rnd()%R for _ in range(8)]
        if len(set(l))!=8: continue
        xs,ys=l[:4],l[4:]
        if any((x+y)%R==0 for x in xs for y in ys): continue
        return rc,[[pow(x+y,-1,R) for y in ys] for x in xs]
def bn_perm(st,rc,m):
    for r in range(64):
        st=[(s+rc[4*r+i])%R for i,s in enumerate(st)]
        if 4<=r<60: st[0]=pow(st[0],5,R)
        else: st=[pow(s,5,R) for s in st]
        st=[sum(m[i][j]*st[j] for j in range(4))%R for i in range(4)]
    return st
CIRC=[17,15,41,16,2,28,13,13,39,18,34,20]
DIAG=[8]+[0]*11
def gl_perm(st,rc):
    for r in range(30):
        st=[(s+rc[12*r+i])%P for i,s in enumerate(st)]
        if 4<=r<26: st[0]=pow(st[0],7,P)
        else: st=[pow(s,7,P) for s in st]
        st=[(sum(st[(i+k)%12]*CIRC[i] for i in range(12))+st[k]*DIAG[k])%P for k in range(12)]
    return st
def main():
    rc,m=bn254()
    assert bn_perm([0,0,0,0],rc,m)[0]==5317387130258456662214331362918410991734007599705406860481038345552731150762, bn_perm([0]*4,rc,m)
    assert bn_perm([0,1,2,3],rc,m)[3]==11971464497515232077059236682405357499403220967704831154657374522418385384151
    glrc=[int(x) for x in open(os.path.join(here,"gl_round_constants.txt")).read().split()]
    assert len(glrc)==360
    z=gl_perm([0]*12,glrc)
    assert z[0]==4330397376401421145 and z[11]==1698615465718385111,z
    mds=[[0]*12 for _ in range(12)]
    for k in range(12):
        for i in range(12): mds[k][(i+k)%12]+=CIRC[i]
        mds[k][k]+=DIAG[k]
    def rows(x,w): return "[\n"+",\n".join("    ["+", ".join(map(str,x[i:i+w]))+"]" for i in range(0,len(x),w))+"\n  ]"
    with open(os.path.join(here,"..","spec","constants.qnt"),"w") as f:
        f.write("""// Generated by tools/gen_constants.py. Poseidon parameters in textbook form.
module constants {
  // Goldilocks Poseidon: one row of 12 round constants per round (4 full, 22 partial, 4 full)
  pure val GL_RC: List[List[int]] = %s
  pure val GL_MDS: List[List[int]] = %s
  // BN254 Poseidon: one row of 4 round constants per round (4 full, 56 partial, 4 full)
  pure val BN_RC: List[List[int]] = %s
  pure val BN_MDS: List[List[int]] = %s
}
"""%(rows(glrc,12),rows(sum(mds,[]),12),rows(rc,4),rows(sum(m,[]),4)))
main()
