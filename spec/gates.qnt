// The polynomial constraints of every supported custom gate, as published by Plonky2: which wires they read, in which
// order they come and with which sign. A gate is its kind and its parameters; a row is the values of its wires, its
// constants and the public-input hash, all taken from the extension field.
module gates {
  import field.* from "./field"
  import poseidon.* from "./poseidon"
  import constants.* from "./constants"
  import data.* from "./data"

  type Gate = { kind: str, p: List[int], ws: List[int] }
  type Row = { w: List[Ext], c: List[Ext], h: List[int] }

  pure def alg(w: List[Ext], i: int): Alg = (w[i], w[i + 1])
  pure def aflat(a: Alg): List[Ext] = [a._1, a._2]
  pure def algs(n: int, f: (int) => Alg): List[Ext] = range(0, n).foldl([], (acc, i) => acc.concat(aflat(f(i))))
  pure def each(n: int, f: (int) => Ext): List[Ext] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def embed(e: Ext): Alg = (e, E0)
  // the subgroup of order 2^bits, generator order
  pure def subgroup(bits: int): List[int] = {
    pure val g = rootOfUnity(bits)
    range(0, 2^bits).foldl({ x: 1, l: [] }, (s, i) => { x: fmul(s.x, g), l: s.l.append(s.x) }).l
  }
  // barycentric weights of that subgroup: 1 / prod_{j != i} (x_i - x_j) = x_i / 2^bits
  pure def subgroupWeights(bits: int): List[int] = {
    pure val ninv = finv(2^bits)
    subgroup(bits).foldl([], (acc, x) => acc.append(fmul(x, ninv)))
  }

  // ---- simple gates
  pure def cArithmetic(n: int, r: Row): List[Ext] = each(n, i =>
    esub(r.w[4 * i + 3], eadd(emul(emul(r.w[4 * i], r.w[4 * i + 1]), r.c[0]), emul(r.w[4 * i + 2], r.c[1]))))
  pure def cArithmeticExt(n: int, r: Row): List[Ext] = algs(n, i =>
    asub(alg(r.w, 8 * i + 6), aadd(ascale(r.c[0], amul(alg(r.w, 8 * i), alg(r.w, 8 * i + 2))), ascale(r.c[1], alg(r.w, 8 * i + 4)))))
  pure def cMulExt(n: int, r: Row): List[Ext] = algs(n, i =>
    asub(alg(r.w, 6 * i + 4), ascale(r.c[0], amul(alg(r.w, 6 * i), alg(r.w, 6 * i + 2)))))
  pure def cConstant(n: int, r: Row): List[Ext] = each(n, i => esub(r.c[i], r.w[i]))
  pure def cPublicInput(r: Row): List[Ext] = each(4, i => esub(r.w[i], ext(r.h[i])))
  pure def cBaseSum(nl: int, bs: int, r: Row): List[Ext] =
    [esub(epoly(r.w.slice(1, 1 + nl), ext(bs)), r.w[0])].concat(
      each(nl, i => range(0, bs).foldl(E1, (a, k) => emul(a, esub(r.w[1 + i], ext(k))))))
  pure def cExponentiation(n: int, r: Row): List[Ext] =
    each(n, i => {
      pure val prev = if (i == 0) E1 else emul(r.w[n + 1 + i], r.w[n + 1 + i])
      pure val b = r.w[n - i]
      // b * base + (1 - b)
      esub(emul(prev, eadd(emul(b, r.w[0]), esub(E1, b))), r.w[n + 2 + i])
    }).append(esub(r.w[n + 1], r.w[2 * n + 1]))
  pure def cRandomAccess(bits: int, copies: int, extra: int, r: Row): List[Ext] = {
    pure val stride = 2 + 2^bits
    pure val routed = stride * copies + extra
    range(0, copies).foldl([], (acc, k) => {
      pure val bs = r.w.slice(routed + k * bits, routed + (k + 1) * bits)
      pure val list = r.w.slice(stride * k + 2, stride * (k + 1))
      // select by the bits, least significant first
      pure val sel = range(0, bits).foldl(list, (l, j) =>
        range(0, l.length() / 2).foldl([], (a, i) => a.append(eadd(l[2 * i], emul(bs[j], esub(l[2 * i + 1], l[2 * i]))))))
      acc.concat(each(bits, j => esub(emul(bs[j], bs[j]), bs[j])))
        .append(esub(epoly(bs, ext(2)), r.w[stride * k]))
        .append(esub(sel[0], r.w[stride * k + 1]))
    }).concat(each(extra, i => esub(r.c[i], r.w[stride * copies + i])))
  }
  // output, alpha and the incoming accumulator sit at wires 0, 2 and 4; the last accumulator is the output
  pure def cReducing(n: int, r: Row): List[Ext] = algs(n, i => {
    pure val prev = if (i == 0) alg(r.w, 4) else alg(r.w, 6 + n + 2 * (i - 1))
    pure val cur = if (i == n - 1) alg(r.w, 0) else alg(r.w, 6 + n + 2 * i)
    asub(aadd(amul(prev, alg(r.w, 2)), embed(r.w[6 + i])), cur)
  })
  pure def cReducingExt(n: int, r: Row): List[Ext] = algs(n, i => {
    pure val prev = if (i == 0) alg(r.w, 4) else alg(r.w, 6 + 2 * n + 2 * (i - 1))
    pure val cur = if (i == n - 1) alg(r.w, 0) else alg(r.w, 6 + 2 * n + 2 * i)
    asub(aadd(amul(prev, alg(r.w, 2)), alg(r.w, 6 + 2 * i)), cur)
  })

  // ---- interpolation on a coset, in segments of at most `degree` points
  type Partial = { ev: Alg, prod: Alg }
  pure def interp(xs: List[int], ws: List[int], vs: (int) => Alg, lo: int, hi: int, pt: Alg, from: Partial): Partial =
    range(lo, hi).foldl(from, (s, i) => {
      pure val t = asub(pt, embed(ext(xs[i])))
      { ev: aadd(amul(s.ev, t), amul(ascale(ext(ws[i]), vs(i)), s.prod)), prod: amul(s.prod, t) }
    })
  pure def coInter(bits: int, d: int): int = (2^bits - 2) / (d - 1)
  pure def cCoset(bits: int, d: int, ws: List[int], r: Row): List[Ext] = {
    pure val n = 2^bits
    pure val m = coInter(bits, d)
    pure val xs = subgroup(bits)
    pure val start = 1 + 2 * n + 4
    pure val pt = alg(r.w, start + 4 * m)
    pure val res = range(0, m).foldl(
      { s: interp(xs, ws, i => alg(r.w, 1 + 2 * i), 0, d, pt, { ev: A0, prod: A1 }), out: [] },
      (st, k) => {
        pure val ie = alg(r.w, start + 2 * k)
        pure val ip = alg(r.w, start + 2 * m + 2 * k)
        pure val lo = 1 + (d - 1) * (k + 1)
        { s: interp(xs, ws, i => alg(r.w, 1 + 2 * i), lo, imin(lo + d - 1, n), pt, { ev: ie, prod: ip }),
          out: st.out.concat(aflat(asub(ie, st.s.ev))).concat(aflat(asub(ip, st.s.prod))) }
      })
    aflat(asub(alg(r.w, 1 + 2 * n), ascale(r.w[0], pt)))
      .concat(res.out)
      .concat(aflat(asub(alg(r.w, start - 2), res.s.ev)))
  }

  // ---- Poseidon: inputs 0..11, outputs 12..23, swap 24, delta 25..28, then the S-box inputs that are wires
  pure def cPoseidon(r: Row): List[Ext] = {
    pure val swap = r.w[24]
    pure val pre = [emul(swap, esub(swap, E1))].concat(
      each(4, i => esub(emul(swap, esub(r.w[i + 4], r.w[i])), r.w[25 + i])))
    pure val s0 = each(12, i => if (i < 4) eadd(r.w[i], r.w[25 + i]) else if (i < 8) esub(r.w[i], r.w[25 + i - 4]) else r.w[i])
    pure val res = range(0, 30).foldl({ s: s0, out: pre }, (st, rd) => {
      pure val t = eAddRc(st.s, rd)
      // the wires that replace the S-box inputs of this round
      pure val base = if (rd < 4) 29 + 12 * (rd - 1) else if (rd < 26) 65 + (rd - 4) else 87 + 12 * (rd - 26)
      if (rd == 0) { s: eMds(each(12, i => esbox7(t[i]))), out: st.out }
      else if (rd >= 4 and rd < 26)
        { s: eMds(each(12, i => if (i == 0) esbox7(r.w[base]) else t[i])), out: st.out.append(esub(t[0], r.w[base])) }
      else
        { s: eMds(each(12, i => esbox7(r.w[base + i]))), out: st.out.concat(each(12, i => esub(t[i], r.w[base + i]))) }
    })
    res.out.concat(each(12, i => esub(res.s[i], r.w[12 + i])))
  }
  pure def cMds(r: Row): List[Ext] = {
    pure val a = eMds(each(12, i => r.w[2 * i]))
    pure val b = eMds(each(12, i => r.w[2 * i + 1]))
    algs(12, i => asub(alg(r.w, 24 + 2 * i), (a[i], b[i])))
  }

  pure def constraints(g: Gate, r: Row): List[Ext] =
    if (g.kind == "noop") []
    else if (g.kind == "constant") cConstant(g.p[0], r)
    else if (g.kind == "publicInput") cPublicInput(r)
    else if (g.kind == "arithmetic") cArithmetic(g.p[0], r)
    else if (g.kind == "arithmeticExt") cArithmeticExt(g.p[0], r)
    else if (g.kind == "mulExt") cMulExt(g.p[0], r)
    else if (g.kind == "baseSum") cBaseSum(g.p[0], g.p[1], r)
    else if (g.kind == "exponentiation") cExponentiation(g.p[0], r)
    else if (g.kind == "randomAccess") cRandomAccess(g.p[0], g.p[1], g.p[2], r)
    else if (g.kind == "reducing") cReducing(g.p[0], r)
    else if (g.kind == "reducingExt") cReducingExt(g.p[0], r)
    else if (g.kind == "coset") cCoset(g.p[0], g.p[1], g.ws, r)
    else if (g.kind == "poseidon") cPoseidon(r)
    else cMds(r)

  pure def numConstraints(g: Gate): int =
    if (g.kind == "noop") 0
    else if (g.kind == "constant" or g.kind == "arithmetic") g.p[0]
    else if (g.kind == "publicInput") 4
    else if (Set("arithmeticExt", "mulExt", "reducing", "reducingExt").contains(g.kind)) 2 * g.p[0]
    else if (g.kind == "baseSum" or g.kind == "exponentiation") g.p[0] + 1
    else if (g.kind == "randomAccess") g.p[1] * (g.p[0] + 2) + g.p[2]
    else if (g.kind == "coset") 4 + 4 * coInter(g.p[0], g.p[1])
    else if (g.kind == "poseidon") 123
    else 24
  pure def numWires(g: Gate): int =
    if (g.kind == "noop") 0
    else if (g.kind == "constant") g.p[0]
    else if (g.kind == "publicInput") 4
    else if (g.kind == "arithmetic") 4 * g.p[0]
    else if (g.kind == "arithmeticExt") 8 * g.p[0]
    else if (g.kind == "mulExt") 6 * g.p[0]
    else if (g.kind == "baseSum") 1 + g.p[0]
    else if (g.kind == "exponentiation") 2 + 2 * g.p[0]
    else if (g.kind == "randomAccess") (2 + 2^g.p[0]) * g.p[1] + g.p[2] + g.p[1] * g.p[0]
    else if (g.kind == "reducing") 6 + g.p[0] + 2 * (g.p[0] - 1)
    else if (g.kind == "reducingExt") 6 + 2 * g.p[0] + 2 * (g.p[0] - 1)
    else if (g.kind == "coset") 1 + 2 * 2^g.p[0] + 4 + 4 * coInter(g.p[0], g.p[1]) + 2
    else if (g.kind == "poseidon") 135
    else 48
  pure def numConsts(g: Gate): int =
    if (g.kind == "constant") g.p[0]
    else if (g.kind == "arithmetic" or g.kind == "arithmeticExt") 2
    else if (g.kind == "mulExt") 1
    else if (g.kind == "randomAccess") g.p[2]
    else 0

  // ---- completing a row so that the gate is satisfied: free wires are kept, determined wires are recomputed
  pure def setw(w: List[Ext], i: int, v: Ext): List[Ext] = w.replaceAt(i, v)
  pure def puta(w: List[Ext], i: int, v: Alg): List[Ext] = w.replaceAt(i, v._1).replaceAt(i + 1, v._2)
  pure def neg(c: List[Ext], i: int): Ext = eneg(c[i])
  // move wire i by d
  pure def bump(w: List[Ext], i: int, d: Ext): List[Ext] = w.replaceAt(i, eadd(w[i], d))
  pure def small(e: Ext, m: int): Ext = ext(e._1 % m)
  pure def complete(g: Gate, r0: Row): Row = {
    pure val cn = if (g.p.length() > 0) g.p[0] else 0
    // wires that must be small digits
    pure val cw =
      if (g.kind == "baseSum") range(1, cn + 1).foldl(r0.w, (v, i) => setw(v, i, small(v[i], g.p[1])))
      else if (g.kind == "exponentiation") range(1, cn + 1).foldl(r0.w, (v, i) => setw(v, i, small(v[i], 2)))
      else if (g.kind == "randomAccess") {
        pure val routed = (2 + 2^cn) * g.p[1] + g.p[2]
        range(routed, routed + cn * g.p[1]).foldl(r0.w, (v, i) => setw(v, i, small(v[i], 2)))
      }
      else if (g.kind == "poseidon") setw(r0.w, 24, small(r0.w[24], 2))
      else r0.w
    pure val rr = r0.with("w", cw)
    if (g.kind == "constant") rr.with("w", range(0, cn).foldl(cw, (w1, i) => setw(w1, i, rr.c[i])))
    else if (g.kind == "publicInput") rr.with("w", range(0, 4).foldl(cw, (w1, i) => setw(w1, i, ext(rr.h[i]))))
    else if (g.kind == "arithmetic") {
      pure val c = constraints(g, rr)
      rr.with("w", range(0, cn).foldl(cw, (w1, i) => bump(w1, 4 * i + 3, eneg(c[i]))))
    }
    else if (g.kind == "arithmeticExt") {
      pure val c = constraints(g, rr)
      rr.with("w", range(0, 2 * cn).foldl(cw, (w1, i) => bump(w1, 8 * (i / 2) + 6 + i % 2, eneg(c[i]))))
    }
    else if (g.kind == "mulExt") {
      pure val c = constraints(g, rr)
      rr.with("w", range(0, 2 * cn).foldl(cw, (w1, i) => bump(w1, 6 * (i / 2) + 4 + i % 2, eneg(c[i]))))
    }
    else if (g.kind == "baseSum") rr.with("w", bump(cw, 0, constraints(g, rr)[0]))
    else if (g.kind == "exponentiation") {
      pure val w2 = range(0, cn).foldl(cw, (w1, i) => bump(w1, cn + 2 + i, constraints(g, rr.with("w", w1))[i]))
      rr.with("w", setw(w2, cn + 1, w2[2 * cn + 1]))
    }
    else if (g.kind == "randomAccess") {
      pure val c = constraints(g, rr)
      pure val w2 = range(0, g.p[1]).foldl(cw, (w1, k) =>
        bump(bump(w1, (2 + 2^cn) * k, c[k * (cn + 2) + cn]), (2 + 2^cn) * k + 1, c[k * (cn + 2) + cn + 1]))
      rr.with("w", range(0, g.p[2]).foldl(w2, (w1, i) => setw(w1, (2 + 2^cn) * g.p[1] + i, rr.c[i])))
    }
    else if (g.kind == "reducing" or g.kind == "reducingExt") {
      pure val accs = if (g.kind == "reducing") 6 + cn else 6 + 2 * cn
      rr.with("w", range(0, cn).foldl(cw, (w1, i) => {
        pure val c = constraints(g, rr.with("w", w1))
        pure val at = if (i == cn - 1) 0 else accs + 2 * i
        bump(bump(w1, at, c[2 * i]), at + 1, c[2 * i + 1])
      }))
    }
    else if (g.kind == "coset") {
      pure val m = coInter(cn, g.p[1])
      pure val start = 1 + 2 * 2^cn + 4
      pure val w0 = {
        pure val c = constraints(g, rr)
        bump(bump(cw, start - 4, eneg(c[0])), start - 3, eneg(c[1]))
      }
      pure val w2 = range(0, m).foldl(w0, (w1, k) => {
        pure val c = constraints(g, rr.with("w", w1))
        bump(bump(bump(bump(w1, start + 2 * k, eneg(c[2 + 4 * k])), start + 2 * k + 1, eneg(c[3 + 4 * k])),
          start + 2 * m + 2 * k, eneg(c[4 + 4 * k])), start + 2 * m + 2 * k + 1, eneg(c[5 + 4 * k]))
      })
      pure val c = constraints(g, rr.with("w", w2))
      rr.with("w", bump(bump(w2, start - 2, eneg(c[2 + 4 * m])), start - 1, eneg(c[3 + 4 * m])))
    }
    else if (g.kind == "poseidon") {
      pure val w1 = range(0, 4).foldl(cw, (x, i) => setw(x, 25 + i, emul(cw[24], esub(cw[i + 4], cw[i]))))
      pure val s0 = each(12, i => if (i < 4) eadd(w1[i], w1[25 + i]) else if (i < 8) esub(w1[i], w1[21 + i]) else w1[i])
      pure val res = range(0, 30).foldl({ s: s0, w: w1 }, (st, rd) => {
        pure val t = eAddRc(st.s, rd)
        pure val part = rd >= 4 and rd < 26
        pure val base = if (rd < 4) 29 + 12 * (rd - 1) else if (part) 65 + (rd - 4) else 87 + 12 * (rd - 26)
        { s: eMds(each(12, i => if (i == 0 or not(part)) esbox7(t[i]) else t[i])),
          w: if (rd == 0) st.w else range(0, if (part) 1 else 12).foldl(st.w, (x, i) => setw(x, base + i, t[i])) }
      })
      rr.with("w", range(0, 12).foldl(res.w, (x, i) => setw(x, 12 + i, res.s[i])))
    }
    else if (g.kind == "poseidonMds") {
      pure val c = constraints(g, rr)
      rr.with("w", range(0, 24).foldl(cw, (w1, i) => bump(w1, 24 + i, eneg(c[i]))))
    }
    else rr
  }

  // what the gate is there for, on a completed row
  pure def meaning(g: Gate, r: Row): bool =
    if (g.kind == "exponentiation") {
      pure val n = g.p[0]
      pure val e = range(0, n).foldl(0, (a, i) => a + r.w[1 + i]._1 * 2^i)
      n <= 60 implies r.w[n + 1] == epow(r.w[0], e)
    }
    else if (g.kind == "randomAccess")
      0.to(g.p[1] - 1).forall(k => r.w[(2 + 2^g.p[0]) * k + 1] == r.w[(2 + 2^g.p[0]) * k + 2 + r.w[(2 + 2^g.p[0]) * k]._1])
    else if (g.kind == "baseSum") and { g.p[1]^g.p[0] < P implies
      r.w[0] == ext(range(0, g.p[0]).foldl(0, (a, i) => a + r.w[1 + i]._1 * g.p[1]^i)) }
    else if (g.kind == "poseidon" and r.w[24] == E0) ePerm(r.w.slice(0, 12)) == r.w.slice(12, 24)
    else if (g.kind == "poseidon") ePerm(r.w.slice(4, 8).concat(r.w.slice(0, 4)).concat(r.w.slice(8, 12))) == r.w.slice(12, 24)
    else if (g.kind == "coset" and g.ws == subgroupWeights(g.p[0])) {
      // Lagrange interpolation through the given values, evaluated at point / shift
      pure val n = 2^g.p[0]
      pure val xs = subgroup(g.p[0])
      pure val start = 1 + 2 * n + 4
      pure val pt = alg(r.w, start + 4 * coInter(g.p[0], g.p[1]))
      pure val lagrange = range(0, n).foldl(A0, (acc, i) =>
        aadd(acc, range(0, n).foldl(alg(r.w, 1 + 2 * i), (t, j) =>
          if (i == j) t else ascale(ext(finv(fsub(xs[i], xs[j]))), amul(t, asub(pt, embed(ext(xs[j]))))))))
      alg(r.w, start - 2) == lagrange and alg(r.w, start - 4) == ascale(r.w[0], pt)
    }
    else true

  pure val KINDS: List[str] = ["noop", "constant", "publicInput", "arithmetic", "arithmeticExt", "mulExt", "baseSum",
    "exponentiation", "randomAccess", "reducing", "reducingExt", "coset", "poseidon", "poseidonMds"]
  pure def cap(x: int, lo: int, hi: int): int = lo + x % (hi - lo + 1)
  // parameters out of one number; `real` picks those of the standard recursion configuration
  pure def mkGate(k: str, x: int, weights: List[int]): Gate = {
    pure val real = x % 4 == 0
    pure val a = x / 4
    if (k == "noop" or k == "publicInput" or k == "poseidon" or k == "poseidonMds") { kind: k, p: [], ws: [] }
    else if (k == "constant") { kind: k, p: [if (real) 2 else cap(a, 0, 6)], ws: [] }
    else if (k == "arithmetic") { kind: k, p: [if (real) 20 else cap(a, 0, 12)], ws: [] }
    else if (k == "arithmeticExt") { kind: k, p: [if (real) 10 else cap(a, 0, 7)], ws: [] }
    else if (k == "mulExt") { kind: k, p: [if (real) 13 else cap(a, 0, 7)], ws: [] }
    else if (k == "baseSum") { kind: k, p: if (real) [63, 2] else [cap(a, 1, 16), cap(a / 16, 2, 10)], ws: [] }
    else if (k == "exponentiation") { kind: k, p: [if (real) 66 else cap(a, 1, 16)], ws: [] }
    else if (k == "randomAccess") {
      pure val b = cap(a, 0, 4)
      { kind: k, p: if (real) [4, 4, 2] else [b, cap(a / 8, 1, if (b < 3) 6 else 3), cap(a / 64, 0, 4)], ws: [] } }
    else if (k == "reducing") { kind: k, p: [if (real) 43 else cap(a, 1, 16)], ws: [] }
    else if (k == "reducingExt") { kind: k, p: [if (real) 32 else cap(a, 1, 12)], ws: [] }
    else {
      pure val b = if (real) 4 else cap(a, 1, 4)
      pure val d = if (real) 6 else cap(a / 8, 2, imin(2^b, 9))
      { kind: "coset", p: [b, d], ws: if (a % 3 == 0) weights.slice(0, 2^b) else subgroupWeights(b) }
    }
  }
}
