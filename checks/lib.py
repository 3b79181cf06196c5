"""Independent reference semantics shared by the harnesses (written from the
property texts: qubit 0 is the most significant bit)."""
import numpy as np
import sympy


def bits(i, n):
    return tuple((i >> (n - 1 - q)) & 1 for q in range(n))


def index(b):
    r = 0
    for x in b:
        r = 2 * r + x
    return r


def zeros(n, m=None):
    m = n if m is None else m
    return [[0] * m for _ in range(n)]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def tolist(M):
    if isinstance(M, list):
        return M
    return [[M[i, j] for j in range(M.shape[1])] for i in range(M.shape[0])]


def iszero(v):
    return type(v) in (int, float, complex) and v == 0


def mul(A, B):
    A, B = tolist(A), tolist(B)
    n, m, k = len(A), len(B), len(B[0])
    out = zeros(n, k)
    for i in range(n):
        for j in range(m):
            a = A[i][j]
            if is0(a):
                continue
            for c in range(k):
                b = B[j][c]
                if is0(b):
                    continue
                t = a * b
                out[i][c] = t if is0(out[i][c]) else out[i][c] + t
    return out


def is0(v):
    if type(v) in (int, float, complex):
        return v == 0
    p = getattr(v, "p", None)
    if p is not None and isinstance(p, dict):
        return not p
    return False


def apply(A, v):
    A = tolist(A)
    out = []
    for row in A:
        s = 0
        for a, x in zip(row, v):
            if is0(a) or is0(x):
                continue
            s = s + a * x
        out.append(s)
    return out


def add(A, B):
    A, B = tolist(A), tolist(B)
    return [[a + b for a, b in zip(x, y)] for x, y in zip(A, B)]


def sub(A, B):
    A, B = tolist(A), tolist(B)
    return [[a - b for a, b in zip(x, y)] for x, y in zip(A, B)]


def scale(k, A):
    return [[k * a if not is0(a) else 0 for a in r] for r in tolist(A)]


def dag(A):
    A = tolist(A)
    return [[conj(A[i][j]) for i in range(len(A))] for j in range(len(A[0]))]


def conj(v):
    return v.conjugate() if hasattr(v, "conjugate") else v


def kron(A, B):
    A, B = tolist(A), tolist(B)
    out = zeros(len(A) * len(B), len(A[0]) * len(B[0]))
    for i, r in enumerate(A):
        for j, a in enumerate(r):
            if is0(a):
                continue
            for k, s in enumerate(B):
                for l, b in enumerate(s):
                    if not is0(b):
                        out[i * len(B) + k][j * len(B[0]) + l] = a * b
    return out


def embed(M, qubits, n):
    """M acting on `qubits` (in that order) of an n-qubit register."""
    M = tolist(M)
    out = zeros(2**n)
    for i in range(2**n):
        bi = bits(i, n)
        sub = index([bi[q] for q in qubits])
        for r in range(len(M)):
            v = M[r][sub]
            if is0(v):
                continue
            bo = list(bi)
            for q, x in zip(qubits, bits(r, len(qubits))):
                bo[q] = x
            out[index(bo)][i] = v
    return out


def circuit_matrix(S, ops, n, env=None):
    """Product in program order of embedded gate matrices (gate's own matrix)."""
    U = eye(2**n)
    for op in ops:
        U = mul(embed(S.ev(op.gate.matrix, env), op.qubit_indices, n), U)
    return U


def diag(*blocks):
    n = sum(len(b) for b in blocks)
    out = zeros(n)
    o = 0
    for b in blocks:
        b = tolist(b)
        for i, r in enumerate(b):
            for j, v in enumerate(r):
                out[o + i][o + j] = v
        o += len(b)
    return out


PAULI = {
    "I": [[1, 0], [0, 1]], "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]],
}


def pauli_matrix(ops, n):
    """ops: {qubit: letter}"""
    M = [[1]]
    for q in range(n):
        M = kron(M, PAULI[ops.get(q, "I")])
    return M


def mat(rows):
    return rows


FIXED = ["X", "Y", "Z", "H", "I", "S", "SX", "T", "CNOT", "CZ", "SWAP", "ISWAP"]
PARAM = {"RX": 1, "RY": 1, "RZ": 1, "RH": 1, "PHASE": 1, "U3": 3, "GPi": 1, "GPi2": 1, "CPHASE": 1, "XX": 1, "YY": 1,
         "ZZ": 1, "XY": 1, "MS": 2, "Delay": 1}


def symbolic_matrix(S, g):
    """the gate's matrix depends on symbolic inputs"""
    if any(not isinstance(p, (int, float, complex, sympy.Basic)) for p in g.params):
        return True
    from symx import symp

    return S.symbolic and symp.has_numatom(g.matrix)


def near(A, B, tol=1e-6):
    return all(abs(complex(a) - complex(b)) < tol for r, s in zip(tolist(A), tolist(B)) for a, b in zip(r, s))


def through_json(S, tree):
    """Real JSON text; symbolic numbers travel as opaque number literals."""
    import json
    if not S.symbolic:
        return json.loads(json.dumps(tree))
    from symx import tokens
    return tokens.untoken(json.loads(json.dumps(tokens.tokenise(tree))))
