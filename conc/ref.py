"""Reference definitions, independent of the library."""
import numpy as np, math, cmath
I2=np.eye(2,dtype=complex); X=np.array([[0,1],[1,0]],complex); Y=np.array([[0,-1j],[1j,0]]); Z=np.diag([1,-1]).astype(complex)
H=np.array([[1,1],[1,-1]],complex)/math.sqrt(2); S=np.diag([1,1j]); Tm=np.diag([1,cmath.exp(1j*math.pi/4)])
def R(P,th): return math.cos(th/2)*I2-1j*math.sin(th/2)*P
def RX(a): return R(X,a)
def RY(a): return R(Y,a)
def RZ(a): return R(Z,a)
def ROT(b,g,d): return RZ(d)@RY(g)@RZ(b)
def ctrl(U,k=1):
    n=U.shape[0]; M=np.eye(n*2**k,dtype=complex); M[-n:,-n:]=U; return M
SW=np.eye(4,dtype=complex)[[0,2,1,3]]
# name -> (number of qubits, number of parameters, matrix function, number of controls)
G={'Identity':(1,0,lambda:I2,0),'X':(1,0,lambda:X,0),'Y':(1,0,lambda:Y,0),'Z':(1,0,lambda:Z,0),'Hadamard':(1,0,lambda:H,0),
 'S':(1,0,lambda:S,0),'T':(1,0,lambda:Tm,0),'RX':(1,1,RX,0),'RY':(1,1,RY,0),'RZ':(1,1,RZ,0),'Rotation':(1,3,ROT,0),
 'CX':(2,0,lambda:ctrl(X),1),'CY':(2,0,lambda:ctrl(Y),1),'CZ':(2,0,lambda:ctrl(Z),1),'CHadamard':(2,0,lambda:ctrl(H),1),
 'CRX':(2,1,lambda a:ctrl(RX(a)),1),'CRY':(2,1,lambda a:ctrl(RY(a)),1),'CRZ':(2,1,lambda a:ctrl(RZ(a)),1),
 'CRotation':(2,3,lambda b,g,d:ctrl(ROT(b,g,d)),1),'SWAP':(2,0,lambda:SW,0),'CSWAP':(3,0,lambda:ctrl(SW),0),'CCX':(3,0,lambda:ctrl(X,2),0)}
ALIASES={'Phase':'S','P':'S','CNOT':'CX','Fredkin':'CSWAP','CCNOT':'CCX','Toffoli':'CCX'}
def apply(M,targets,n,psi):
    """big-endian: qubit q is tensor axis q; M acts on the operand tuple, first operand most significant"""
    k=len(targets); t=psi.reshape((2,)*n)
    t=np.tensordot(M.reshape((2,)*(2*k)),t,axes=(list(range(k,2*k)),list(targets)))
    return np.moveaxis(t,list(range(k)),list(targets)).reshape(-1)
def embed(M,targets,n):
    return np.stack([apply(M,targets,n,e) for e in np.eye(2**n,dtype=complex)],axis=1)
def flip(psi,n):
    """reverse the qubit order of the index"""
    return np.transpose(psi.reshape((2,)*n)).reshape(-1)
def zero(n):
    v=np.zeros(2**n,complex); v[0]=1; return v
def angle(r):
    c=r.random()
    if c<.1: return 0
    if c<.2: return r.choice([1,-1,2,3])
    if c<.3: return r.choice([math.pi,-math.pi,math.pi/2,2*math.pi,4*math.pi])
    if c<.4: return r.uniform(-60,60)
    return r.uniform(-6.5,6.5)
def unitary(r,d=2):
    g=np.random.default_rng(r.getrandbits(32)); a=g.normal(size=(d,d))+1j*g.normal(size=(d,d)); q,_=np.linalg.qr(a); return q
def randstate(r,n):
    g=np.random.default_rng(r.getrandbits(32)); a=g.normal(size=2**n)+1j*g.normal(size=2**n); return a/np.linalg.norm(a)
