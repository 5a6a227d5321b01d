// Checking a FRI opening proof, given the challenges: Merkle openings of the committed oracles and folding layers at
// every queried index, combination of the claimed openings, folding, final polynomial and proof of work.
module fri {
  import field.* from "./field"
  import poseidon.* from "./poseidon"

  // lde: bits of the evaluation domain, k: folding rounds of arity 16
  type Params = { lde: int, rate: int, pow: int, k: int, ncst: int, nrouted: int, nwires: int, nch: int, npp: int, q: int, hiding: bool }
  type Step = { evals: List[Ext], sib: List[int] }
  type Query = { leaves: List[List[int]], sib: List[List[int]], steps: List[Step] }
  type Proof = { caps: List[List[int]], ccaps: List[List[int]], queries: List[Query], fin: List[Ext] }
  type Chals = { zeta: Ext, alpha: Ext, betas: List[Ext], pow: int, xs: List[int] }
  type Opens = { at: List[Ext], next: List[Ext] }

  pure def polys(p: Params): List[int] = [p.ncst + p.nrouted, p.nwires, p.nch * (1 + p.npp), p.nch * p.q]
  pure def leafLen(p: Params, i: int): int = polys(p)[i] + (if (p.hiding and i > 0) 4 else 0)
  pure def finLen(p: Params): int = 2^(p.lde - p.rate - 4 * p.k)

  // ---- Merkle
  pure def climb(leaf: List[int], idx: int, sib: List[int]): int =
    range(0, sib.length()).foldl({ d: bnHashOrNoop(leaf), i: idx }, (s, j) => {
      d: if (s.i % 2 == 0) bnTwoToOne(s.d, sib[j]) else bnTwoToOne(sib[j], s.d), i: s.i / 2 }).d
  pure def flatExt(l: List[Ext]): List[int] = l.foldl([], (acc, e) => acc.append(e._1).append(e._2))

  // ---- points: coset 7*<g>, in bit-reversed order
  pure def pointAt(p: Params, idx: int): int = fmul(GEN, fpow(rootOfUnity(p.lde), revBits(idx, p.lde)))

  // ---- combination of the queried leaves against the claimed openings
  pure def combine(p: Params, c: Chals, o: Opens, q: Query, x: int): Ext = {
    pure val evals = range(0, 4).foldl([], (acc, i) => acc.concat(q.leaves[i].slice(0, polys(p)[i]).foldl([], (l, v) => l.append(ext(v)))))
    pure val nexts = q.leaves[2].slice(0, p.nch).foldl([], (l, v) => l.append(ext(v)))
    pure val zn = escale(c.zeta, rootOfUnity(p.lde - p.rate))
    pure val t1 = ediv(esub(epoly(evals, c.alpha), epoly(o.at, c.alpha)), esub(ext(x), c.zeta))
    pure val t2 = ediv(esub(epoly(nexts, c.alpha), epoly(o.next, c.alpha)), esub(ext(x), zn))
    eadd(emul(t1, epow(c.alpha, p.nch)), t2)
  }
  // ---- folding: the polynomial through the 16 evaluations of a coset, at beta. The evaluation stored at position i
  // (bit-reversed) belongs to the point start * w^rev(i); x is the point of position w0.
  pure val W16: List[int] = range(0, 16).foldl({ x: 1, l: [] }, (s, i) => { x: fmul(s.x, rootOfUnity(4)), l: s.l.append(s.x) }).l
  pure def cosetPoint(x: int, pos: int, i: int): int = fmul(x, W16[(revBits(i, 4) + 16 - revBits(pos, 4)) % 16])
  // weight of position i: (beta^16 - c) * x_i / (16 c (beta - x_i)), c = x^16
  pure def lagrange(x: int, pos: int, i: int, beta: Ext): Ext = {
    pure val c = fpow(x, 16)
    pure val xi = cosetPoint(x, pos, i)
    if (beta == ext(xi)) E1 else // beta may be a point of the coset itself
    escale(emul(esub(epow(beta, 16), ext(c)), einv(esub(beta, ext(xi)))), fmul(xi, finv(fmul(16, c))))
  }
  pure def fold16(x: int, pos: int, evals: List[Ext], beta: Ext): Ext =
    range(0, 16).foldl(E0, (acc, i) => eadd(acc, emul(evals[i], lagrange(x, pos, i, beta))))

  // ---- one query
  pure def queryOk(p: Params, c: Chals, o: Opens, pf: Proof, qi: int): bool = {
    pure val q = pf.queries[qi]
    pure val idx = c.xs[qi] % 2^p.lde
    pure val top = idx / 2^(p.lde - 4)
    pure val x0 = pointAt(p, idx)
    and {
      0.to(3).forall(i => climb(q.leaves[i], idx, q.sib[i]) == pf.caps[i][top]),
      // no value when the queried point is an opening point
      ext(x0) != c.zeta, ext(x0) != escale(c.zeta, rootOfUnity(p.lde - p.rate)),
      {
        pure val r = range(0, p.k).foldl({ ok: true, old: combine(p, c, o, q, x0), x: x0, idx: idx }, (s, j) => {
          pure val st = q.steps[j]
          pure val pos = s.idx % 16
          { ok: s.ok and st.evals[pos] == s.old and climb(flatExt(st.evals), s.idx / 16, st.sib) == pf.ccaps[j][top],
            old: fold16(s.x, pos, st.evals, c.betas[j]), x: fpow(s.x, 16), idx: s.idx / 16 }
        })
        r.ok and r.old == epoly(pf.fin, ext(r.x))
      }
    }
  }
  pure def friOk(p: Params, c: Chals, o: Opens, pf: Proof): bool = and {
    c.pow < 2^(64 - p.pow),
    0.to(pf.queries.length() - 1).forall(i => queryOk(p, c, o, pf, i))
  }
}
