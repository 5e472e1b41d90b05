"""Reference: the dense plane-wave Maxwell operator in numpy."""
import numpy as np

def gvec(n):
    """integer reciprocal vectors of the grid, FFT order"""
    ax = [np.array([i if i <= m // 2 else i - m for i in range(m)]) for m in n]
    return np.stack(np.meshgrid(*ax, indexing='ij'), -1).reshape(-1, 3)

def gridfrac(n):
    ax = [np.arange(m) / m for m in n]
    return np.stack(np.meshgrid(*ax, indexing='ij'), -1).reshape(-1, 3)

def transverse(q):
    """orthonormal m, n with (m,n,q) right handed; q = 0: y, z"""
    l = np.linalg.norm(q)
    if l < 1e-12: return np.array([0, 1., 0]), np.array([0, 0, 1.])
    q = q / l
    a = np.array([0, 0, 1.]) if abs(q[2]) < 0.9 else np.array([1., 0, 0])
    m = np.cross(a, q); m /= np.linalg.norm(m)
    return m, np.cross(q, m)

class Dense:
    """E, M: (nx,ny,nz,3,3) tensors (M None = vacuum).  einv/minv may be given directly."""
    def __init__(self, n, G, k, E=None, M=None, einv=None, minv=None, pol=None):
        self.n, N = n, int(np.prod(n)); self.N = N
        self.einv = np.linalg.inv(E.reshape(N, 3, 3)) if einv is None else einv.reshape(N, 3, 3)
        self.minv = None
        if M is not None: self.minv = np.linalg.inv(M.reshape(N, 3, 3))
        if minv is not None: self.minv = minv.reshape(N, 3, 3)
        g = gvec(n); self.q = (np.asarray(k, float)[None] + g) @ G    # Cartesian k+G (rows of G = reciprocal vectors)
        T = []; cols = []
        for i in range(N):
            m, nn = transverse(self.q[i])
            if pol == 'tm': vs = [np.array([0, 0, 1.])]       # E along z: handled through H in plane
            for v in (m, nn):
                T.append((i, v))
        if pol in ('te', 'tm'):
            T2 = []
            for i in range(N):
                q = self.q[i]
                z = np.array([0, 0, 1.])
                if pol == 'te': T2.append((i, z))
                else:
                    l = np.linalg.norm(q)
                    T2.append((i, np.array([0, 1., 0]) if l < 1e-12 else np.cross(z, q) / l))
            T = T2
        self.T = T; D = len(T); self.D = D
        W = np.exp(2j * np.pi * (gridfrac(n) * np.array(n)[None]) @ (g / np.array(n)[None]).T) / np.sqrt(N)   # real <- recip
        self.W = W
        idx = np.array([t[0] for t in T]); V = np.array([t[1] for t in T])
        self.idx, self.V = idx, V
        X = np.cross(self.q[idx], V)                                  # curl (without i)
        RC = W[:, idx][:, None, :] * X.T[None]                        # (r, 3, D)
        self.A = np.einsum('ria,rij,rjb->ab', RC.conj(), self.einv, RC, optimize=True)
        self.A = (self.A + self.A.conj().T) / 2
        if self.minv is not None:
            RT = W[:, idx][:, None, :] * V.T[None]
            self.Mt = np.einsum('ria,rij,rjb->ab', RT.conj(), self.minv, RT, optimize=True)
            self.Mt = (self.Mt + self.Mt.conj().T) / 2
        else: self.Mt = None
    def eig(self):
        """all omega^2 ascending (and b-vectors)"""
        import scipy.linalg as sl
        if self.Mt is None:
            w, v = np.linalg.eigh(self.A); return w, v
        # C' einv C x = w M^{-1} x, x = M b
        w, v = sl.eigh(self.A, np.linalg.inv(self.Mt))
        return w, np.linalg.solve(self.Mt, v)
    def freqs(self, nb):
        w = self.eig()[0][:nb]
        return np.sqrt(np.maximum(w, 0))
