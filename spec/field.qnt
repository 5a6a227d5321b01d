// The two prime fields of the system and the algebra built on the small one.
//   GF(P)   Goldilocks, the field of the proofs being verified
//   GF(R)   BN254 scalar field, the native field of the circuit
//   Ext     GF(P)[X]/(X^2 - 7), as pairs
//   Alg     two-dimensional algebra over Ext with the same relation, as pairs of pairs
module field {
  pure val P: int = 18446744069414584321
  pure val R: int = 21888242871839275222246405745257275088548364400416034343698204186575808495617
  pure val W: int = 7

  type Ext = (int, int)
  type Alg = (Ext, Ext)

  // ---- GF(P)
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def fadd(a: int, b: int): int = (a + b) % P
  pure def fsub(a: int, b: int): int = (a + P - b) % P
  pure def fmul(a: int, b: int): int = (a * b) % P
  pure def fneg(a: int): int = (P - a) % P
  // exponent below 2^64
  pure def fpow(a: int, e: int): int =
    range(0, 64).foldl({ acc: 1, base: a, e: e }, (s, i) =>
      if (s.e == 0) s else
      { acc: if (s.e % 2 == 1) (s.acc * s.base) % P else s.acc, base: (s.base * s.base) % P, e: s.e / 2 }).acc
  pure def finv(a: int): int = fpow(a, P - 2)

  // ---- Ext
  pure val E0: Ext = (0, 0)
  pure val E1: Ext = (1, 0)
  pure def ext(a: int): Ext = (a, 0)
  pure def eadd(a: Ext, b: Ext): Ext = ((a._1 + b._1) % P, (a._2 + b._2) % P)
  pure def esub(a: Ext, b: Ext): Ext = ((a._1 + P - b._1) % P, (a._2 + P - b._2) % P)
  pure def emul(a: Ext, b: Ext): Ext =
    ((a._1 * b._1 + W * a._2 * b._2) % P, (a._1 * b._2 + a._2 * b._1) % P)
  pure def escale(a: Ext, k: int): Ext = ((a._1 * k) % P, (a._2 * k) % P)
  pure def eneg(a: Ext): Ext = esub(E0, a)
  // 1/(a+bX) = (a-bX)/(a^2-7b^2)
  pure def einv(a: Ext): Ext = {
    pure val n = finv((a._1 * a._1 + P * W - ((W * ((a._2 * a._2) % P)) % P)) % P)
    ((a._1 * n) % P, (((P - a._2) % P) * n) % P)
  }
  pure def ediv(a: Ext, b: Ext): Ext = emul(a, einv(b))
  pure def epow(a: Ext, e: int): Ext =
    range(0, 64).foldl({ acc: E1, base: a, e: e }, (s, i) =>
      if (s.e == 0) s else
      { acc: if (s.e % 2 == 1) emul(s.acc, s.base) else s.acc, base: emul(s.base, s.base), e: s.e / 2 }).acc
  // sum_i terms[i] * x^i
  pure def epoly(terms: List[Ext], x: Ext): Ext =
    range(0, terms.length()).foldl(E0, (acc, i) => eadd(emul(acc, x), terms[terms.length() - 1 - i]))

  // ---- Alg
  pure val A0: Alg = (E0, E0)
  pure val A1: Alg = (E1, E0)
  pure def aadd(a: Alg, b: Alg): Alg = (eadd(a._1, b._1), eadd(a._2, b._2))
  pure def asub(a: Alg, b: Alg): Alg = (esub(a._1, b._1), esub(a._2, b._2))
  pure def amul(a: Alg, b: Alg): Alg =
    (eadd(emul(a._1, b._1), escale(emul(a._2, b._2), W)), eadd(emul(a._1, b._2), emul(a._2, b._1)))
  pure def ascale(k: Ext, a: Alg): Alg = (emul(k, a._1), emul(k, a._2))

  // ---- roots of unity (generator of the 2^32 subgroup published by Plonky2)
  pure val TWO_ADICITY: int = 32
  pure val GEN: int = 7
  pure val POW2_GEN: int = 1753635133440165772
  pure def rootOfUnity(nLog: int): int =
    range(0, TWO_ADICITY - nLog).foldl(POW2_GEN, (r, i) => (r * r) % P)

  // ---- helpers
  pure def canonical(a: int): bool = 0 <= a and a < P
  pure def ecanonical(a: Ext): bool = canonical(a._1) and canonical(a._2)
  pure def sumList(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  // bit i of x
  pure def bit(x: int, i: int): int = (x / 2^i) % 2
  // reverse the low n bits of x
  pure def revBits(x: int, n: int): int =
    range(0, n).foldl(0, (a, i) => a + bit(x, i) * 2^(n - 1 - i))
  pure def lslice(l: List[int], a: int, b: int): List[int] = l.slice(a, b)
}
