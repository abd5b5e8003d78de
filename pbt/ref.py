"""Independent reference computations (plain numpy, straight from the definitions)."""
import numpy as np
from scipy.stats import chi2


def svd(a, **k):
    try:
        return np.linalg.svd(a, **k)
    except np.linalg.LinAlgError:       # divide and conquer may fail to converge
        import scipy.linalg
        return scipy.linalg.svd(a, lapack_driver='gesvd', **k)


def hamming(n):
    return np.array([0.54 - 0.46 * np.cos(2 * np.pi * j / (n - 1)) for j in range(n)])


def var_norm_weights(x, w):
    """weights of each variable divided by that variable's variance over space and time; x (nt,*s,nv)"""
    w = np.array(w, dtype=float, copy=True)
    for v in range(x.shape[-1]):
        xv = x[..., v]
        w[..., v] = w[..., v] / np.mean(np.abs(xv - xv.mean()) ** 2)
    return w


def freq_axis(n_dft, dt, real, fullspectrum):
    k = np.arange(n_dft)
    if fullspectrum:
        return k / (n_dft * dt)
    if real:
        return np.arange(n_dft // 2 + 1) / (n_dft * dt)
    # two-sided, DFT order: bins above Nyquist are negative
    return np.where(k > n_dft / 2, k - n_dft, k) / (n_dft * dt)


def blocks(nt, n_dft, n_ovlp):
    nb = (nt - n_ovlp) // (n_dft - n_ovlp)
    return [(b * (n_dft - n_ovlp)) for b in range(nb)]


class Spod:
    """x: (nt, *xshape, nv) ; w: (*xshape, nv)"""
    def __init__(self, x, w, dt, n_dft, n_ovlp, mean_type, real, fullspectrum, normalize_data=False,
                 normalize_weights=False, onesided=True):
        nt = x.shape[0]
        if normalize_weights:
            w = var_norm_weights(x, w)
        self.w = np.asarray(w, float)
        W = self.w.reshape(-1)
        X = x.reshape(nt, -1)
        mean_type = mean_type.lower()
        self.ltm = X.mean(axis=0)
        win = hamming(n_dft)
        self.offsets = blocks(nt, n_dft, n_ovlp)
        nb = len(self.offsets)
        self.freq = freq_axis(n_dft, dt, real, fullspectrum)
        nf = len(self.freq)
        # DFT written as an explicit sum
        E = np.exp(-2j * np.pi * np.outer(np.arange(nf), np.arange(n_dft)) / n_dft)
        Q = np.empty((nf, X.shape[1], nb), dtype=complex)
        for b, o in enumerate(self.offsets):
            blk = X[o:o + n_dft].copy()
            if mean_type == 'longtime':
                blk = blk - self.ltm
            elif mean_type == 'blockwise':
                blk = blk - blk.mean(axis=0)
            if normalize_data:
                var = blk.var(axis=0, ddof=1)
                var = np.where(var < 4 * np.finfo(float).eps, 1.0, var)
                blk = blk / var
            Q[:, :, b] = E @ (blk * win[:, None]) / (win.mean() * n_dft)
        self.Q, self.W, self.nb, self.nf = Q, W, nb, nf
        # CSD eigenvalues through the method of snapshots, Hermitian solver
        self.eigs_raw = np.empty((nf, nb))
        for f in range(nf):
            M = Q[f].conj().T @ (W[:, None] * Q[f]) / nb
            self.eigs_raw[f] = np.linalg.eigvalsh((M + M.conj().T) / 2)[::-1]
        fac = np.ones(nf)
        if real and not fullspectrum and onesided:
            fac[1:] = 2.0
            if n_dft % 2 == 0:
                fac[-1] = 1.0
        self.fac = fac
        self.eigs = self.eigs_raw * fac[:, None]

    def csd_apply(self, f, phi):
        """S W phi, S = Q Q^H / nb"""
        Q = self.Q[f]
        return Q @ (Q.conj().T @ (self.W[:, None] * phi)) / self.nb

    def direct_eigs(self, f):
        """eigenvalues of W^1/2 S W^1/2 (small cases), the largest nb of them"""
        A = np.sqrt(self.W)[:, None] * self.Q[f] / np.sqrt(self.nb)
        return svd(A, compute_uv=False)[:self.nb] ** 2


def conf_factors(nb, level):
    """eig * factors = (lower?, upper?) bounds of a chi^2 with 2 nb degrees of freedom:
    (2nb / chi2 quantile(level), 2nb / chi2 quantile(1-level))"""
    return 2 * nb / chi2.ppf(level, 2 * nb), 2 * nb / chi2.ppf(1 - level, 2 * nb)


def batch_offsets(nt, n_dft, n_ovlp):
    return blocks(nt, n_dft, n_ovlp)


def stream_offsets(nt, n_dft, n_ovlp):
    """offsets of the blocks that the published streaming algorithm completes: a sliding counter per parallel block,
    reset to (smallest counter - spacing), which leaves out one snapshot at each reset"""
    dn = n_dft - n_ovlp
    npar = -(-n_dft // dn)
    cnt = [-j * dn for j in range(npar)]
    out = []
    for t in range(nt):
        for j in range(npar):
            if cnt[j] == n_dft - 1:
                out.append((t, t - n_dft + 1))
                cnt[j] = min(cnt) - dn
            else:
                cnt[j] += 1
    return [o for _, o in out]


class Stream:
    """Running weighted sum C_n = (n+1)/(n+2) C_{n-1} + (n+1)/(n+2)^2 x_n x_n^H of weighted realisations, cut to k
    leading pairs at every step. s[f] singular values (square roots of the eigenvalues), A[f] with C = A A^H"""
    def __init__(self, x, w, n_dft, offsets, k, real, fullspectrum):
        nt = x.shape[0]
        X = x.reshape(nt, -1)
        self.W = np.asarray(w, float).reshape(-1)
        sq = np.sqrt(self.W)
        win = hamming(n_dft)
        one = real and not fullspectrum
        nf = n_dft // 2 + 1 if one else n_dft
        E = np.exp(-2j * np.pi * np.outer(np.arange(nf), np.arange(n_dft)) / n_dft) / (win.mean() * n_dft)
        if one:
            E[1:(n_dft + 1) // 2] *= 2
        self.nf, self.n = nf, len(offsets)
        self.s = np.zeros((nf, k))
        self.A = [np.zeros((X.shape[1], 0), complex) for _ in range(nf)]
        self.gap = np.ones(nf)
        for i, o in enumerate(offsets):
            n = i + 1
            mu = X[:o + n_dft].mean(axis=0)
            q = E @ ((X[o:o + n_dft] - mu) * win[:, None])
            for f in range(nf):
                B = np.concatenate([np.sqrt((n + 1) / (n + 2)) * self.A[f],
                                    np.sqrt(n + 1) / (n + 2) * (q[f] * sq)[:, None]], axis=1)
                U, s, _ = svd(B, full_matrices=False)
                if len(s) > k and s[0] > 0:
                    self.gap[f] = min(self.gap[f], max((s[k - 1] - s[k]) / s[0], 1.0 if s[k] < 1e-13 * s[0] else 0))
                self.A[f] = U[:, :k] * s[:k]
                self.s[f, :min(k, len(s))] = s[:k]
        self.ltm = X.mean(axis=0)

    def apply(self, f, phi):
        """S W phi for the matrix S of unweighted realisations with C = W^1/2 S W^1/2"""
        sq = np.sqrt(self.W)
        inv = np.divide(1, sq, out=np.zeros_like(sq), where=sq > 0)
        A = self.A[f]
        return inv[:, None] * (A @ (A.conj().T @ (sq[:, None] * phi)))


class Pod:
    """x (nt, *xshape, nv), w (*xshape, nv). D holds the fluctuations, one column per time"""
    def __init__(self, x, w, mean_type, normalize_weights):
        nt = x.shape[0]
        if normalize_weights:
            w = var_norm_weights(x, w)
        self.w = np.asarray(w, float)
        self.W = self.w.reshape(-1)
        X = x.reshape(nt, -1)
        self.mean = X.mean(axis=0)
        self.D = (X - (self.mean if mean_type.lower() == 'longtime' else 0)).T
        self.Q = self.D.conj().T @ (self.W[:, None] * self.D)
        self.eigs = np.linalg.eigvalsh((self.Q + self.Q.conj().T) / 2)[::-1]

    def csd_apply(self, f, phi):
        return self.D @ (self.D.conj().T @ (self.W[:, None] * phi))
