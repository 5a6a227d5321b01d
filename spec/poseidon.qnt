// Textbook Poseidon over both fields and the sponges built on it.
module poseidon {
  import field.* from "./field"
  import constants.* from "./constants"

  // ---------- Goldilocks: width 12, rate 8, 4 + 22 + 4 rounds, x^7
  pure def sbox7(x: int): int = {
    pure val x2 = (x * x) % P
    pure val x3 = (x2 * x) % P
    (((x3 * x3) % P) * x) % P
  }
  pure def glMds(s: List[int]): List[int] =
    range(0, 12).foldl([], (acc, k) => {
      pure val row = GL_MDS[k]
      acc.append((row[0] * s[0] + row[1] * s[1] + row[2] * s[2] + row[3] * s[3] + row[4] * s[4] + row[5] * s[5]
        + row[6] * s[6] + row[7] * s[7] + row[8] * s[8] + row[9] * s[9] + row[10] * s[10] + row[11] * s[11]) % P)
    })
  pure def glRound(s: List[int], r: int): List[int] = {
    pure val c = GL_RC[r]
    pure val t =
      if (r < 4 or r >= 26)
        range(0, 12).foldl([], (acc, i) => acc.append(sbox7((s[i] + c[i]) % P)))
      else
        range(0, 12).foldl([], (acc, i) =>
          acc.append(if (i == 0) sbox7((s[0] + c[0]) % P) else (s[i] + c[i]) % P))
    glMds(t)
  }
  pure def glPerm(s: List[int]): List[int] = range(0, 30).foldl(s, (st, r) => glRound(st, r))

  pure val GL_ZERO: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]

  // overwrite the first elements of the state
  pure def overwrite(s: List[int], xs: List[int]): List[int] =
    range(0, s.length()).foldl([], (acc, i) => acc.append(if (i < xs.length()) xs[i] else s[i]))

  pure def glAbsorb(input: List[int]): List[int] =
    range(0, (input.length() + 7) / 8).foldl(GL_ZERO, (st, k) =>
      glPerm(overwrite(st, input.slice(8 * k, if (8 * k + 8 < input.length()) 8 * k + 8 else input.length()))))

  // overwrite-mode sponge, no padding
  pure def glHashNToM(input: List[int], m: int): List[int] = {
    pure val st = glAbsorb(input)
    range(0, (m + 7) / 8).foldl({ st: st, out: [] }, (s, k) => {
      st: glPerm(s.st),
      out: s.out.concat(s.st.slice(0, if (m - 8 * k < 8) m - 8 * k else 8))
    }).out
  }
  // inputs are reduced first
  pure def glHash(input: List[int]): List[int] =
    glAbsorb(input.foldl([], (acc, x) => acc.append(x % P))).slice(0, 4)

  // ---------- Goldilocks permutation over Ext (used by the Poseidon gates)
  pure def esbox7(x: Ext): Ext = {
    pure val x2 = emul(x, x)
    pure val x3 = emul(x2, x)
    emul(emul(x3, x3), x)
  }
  pure def eMds(s: List[Ext]): List[Ext] =
    range(0, 12).foldl([], (acc, k) =>
      acc.append(range(0, 12).foldl(E0, (a, j) => eadd(a, escale(s[j], GL_MDS[k][j])))))
  pure def eAddRc(s: List[Ext], r: int): List[Ext] =
    range(0, 12).foldl([], (acc, i) => acc.append(eadd(s[i], ext(GL_RC[r][i]))))

  pure def ePerm(s: List[Ext]): List[Ext] =
    range(0, 30).foldl(s, (st, r) => {
      pure val t = eAddRc(st, r)
      eMds(range(0, 12).foldl([], (acc, i) => acc.append(if (i == 0 or r < 4 or r >= 26) esbox7(t[i]) else t[i])))
    })

  // ---------- BN254: width 4, rate 3, 4 + 56 + 4 rounds, x^5
  pure def sbox5(x: int): int = {
    pure val x2 = (x * x) % R
    (((x2 * x2) % R) * x) % R
  }
  pure def bnRound(s: List[int], r: int): List[int] = {
    pure val c = BN_RC[r]
    pure val full = r < 4 or r >= 60
    pure val a0 = sbox5(s[0] + c[0])
    pure val a1 = if (full) sbox5(s[1] + c[1]) else s[1] + c[1]
    pure val a2 = if (full) sbox5(s[2] + c[2]) else s[2] + c[2]
    pure val a3 = if (full) sbox5(s[3] + c[3]) else s[3] + c[3]
    range(0, 4).foldl([], (acc, k) => {
      pure val m = BN_MDS[k]
      acc.append((m[0] * a0 + m[1] * a1 + m[2] * a2 + m[3] * a3) % R)
    })
  }
  pure def bnPerm(s: List[int]): List[int] = range(0, 64).foldl(s, (st, r) => bnRound(st, r))

  // three Goldilocks elements per BN254 element, 64 bits apart
  pure def bnPack(xs: List[int]): int =
    range(0, xs.length()).foldl(0, (a, i) => a + xs[i] * 2^(64 * i)) % R
  pure def bnHash(input: List[int]): int =
    range(0, (input.length() + 8) / 9).foldl([0, 0, 0, 0], (st, k) => {
      pure val chunk = input.slice(9 * k, imin(9 * k + 9, input.length()))
      pure val packed = range(0, (chunk.length() + 2) / 3).foldl([], (acc, j) =>
        acc.append(bnPack(chunk.slice(3 * j, imin(3 * j + 3, chunk.length())))))
      bnPerm(range(0, 4).foldl([], (acc, i) =>
        acc.append(if (i >= 1 and i - 1 < packed.length()) packed[i - 1] else st[i])))
    })[0]
  pure def bnHashOrNoop(input: List[int]): int = if (input.length() <= 3) bnPack(input) else bnHash(input)
  pure def bnTwoToOne(l: int, r: int): int = bnPerm([0, 0, l, r])[0]
  // 56-bit chunks of the canonical representative: 5 chunks, the last of 30 bits
  pure def bnToVec(h: int): List[int] = range(0, 5).foldl([], (acc, i) => acc.append((h / 2^(56 * i)) % 2^56))
}
