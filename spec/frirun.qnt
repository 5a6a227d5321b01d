// Behaviours of the FRI check: an opening proof that is consistent at every queried index is put together (the values
// an honest prover would have there), then it is presented as it is, or with one thing changed, or put together with
// one inconsistency that everything else agrees with.
module frirun {
  import field.* from "./field"
  import poseidon.* from "./poseidon"
  import data.* from "./data"
  import fri.* from "./fri"

  type Raw = { caps: List[List[int]], ccaps: List[List[int]], fin: List[int],
    queries: List[{ leaves: List[List[int]], sib: List[List[int]], steps: List[{ evals: List[int], sib: List[int] }] }] }
  type Ev = { op: str, p: Params, zeta: List[int], alpha: List[int], betas: List[int], pow: int, xs: List[int],
    at: List[int], next: List[int], pf: Raw, accept: bool }
  var ev: Ev
  pure val P0: Params = { lde: 0, rate: 0, pow: 0, k: 0, ncst: 0, nrouted: 0, nwires: 0, nch: 0, npp: 0, q: 0, hiding: false }

  pure def rawOf(pf: Proof): Raw = { caps: pf.caps, ccaps: pf.ccaps, fin: flat(pf.fin),
    queries: pf.queries.foldl([], (acc, q) => acc.append({ leaves: q.leaves, sib: q.sib,
      steps: q.steps.foldl([], (a, s) => a.append({ evals: flat(s.evals), sib: s.sib })) })) }
  pure def event(op: str, p: Params, c: Chals, o: Opens, pf: Proof, ok: bool): Ev =
    { op: op, p: p, zeta: [c.zeta._1, c.zeta._2], alpha: [c.alpha._1, c.alpha._2], betas: flat(c.betas), pow: c.pow, xs: c.xs,
      at: flat(o.at), next: flat(o.next), pf: rawOf(pf), accept: ok }
  action init = ev' = event("init", P0, { zeta: E0, alpha: E0, betas: [], pow: 0, xs: [] }, { at: [], next: [] }, { caps: [], ccaps: [], queries: [], fin: [] }, true)

  // n pseudo-random hashes
  pure def hashes(seed: int, n: int): List[int] =
    range(0, n).foldl({ x: (seed + 1) % R, l: [] }, (s, i) => {
      pure val y = (s.x * 6364136223846793005123456789123456789 + 1442695040888963407) % R
      { x: y, l: s.l.append(if (i % 13 == 5) R - 1 - i else if (i % 13 == 7) i else y) } }).l
  pure def cut(l: List[int], a: int, n: int): List[int] = l.slice(a, a + n)

  // an inconsistency built in at query q: off is added to the evaluation that step `step` carries over (k: to what meets
  // the final polynomial)
  type Flaw = { q: int, step: int, off: Ext }
  pure def flawAt(l: List[Flaw], q: int, j: int): Ext = l.foldl(E0, (a, f) => if (f.q == q and f.step == j) eadd(a, f.off) else a)
  // complete query qi of a proof so that it verifies, except for the flaws
  pure def completeQuery(p: Params, c: Chals, o: Opens, pf: Proof, qi: int, flaws: List[Flaw]): Proof = {
    pure val q = pf.queries[qi]
    pure val idx = c.xs[qi] % 2^p.lde
    pure val top = idx / 2^(p.lde - 4)
    pure val x0 = pointAt(p, idx)
    pure val r = range(0, p.k).foldl({ steps: [], old: combine(p, c, o, q, x0), x: x0, idx: idx }, (s, j) => {
      pure val pos = s.idx % 16
      pure val carried = eadd(s.old, flawAt(flaws, qi, j))
      pure val e0 = q.steps[j].evals.replaceAt(pos, carried)
      pure val x2 = fpow(s.x, 16)
      pure val f0 = fold16(s.x, pos, e0, c.betas[j])
      // the last layer has to meet the final polynomial: correct another evaluation
      pure val fix = (pos + 5) % 16
      pure val goal = eadd(epoly(pf.fin, ext(x2)), flawAt(flaws, qi, p.k))
      pure val e1 = if (j < p.k - 1) e0 else e0.replaceAt(fix, eadd(e0[fix], ediv(esub(goal, f0), lagrange(s.x, pos, fix, c.betas[j]))))
      { steps: s.steps.append({ evals: e1, sib: q.steps[j].sib }), old: if (j < p.k - 1) f0 else goal, x: x2, idx: s.idx / 16 }
    })
    pure val caps = range(0, 4).foldl(pf.caps, (cs, i) => cs.replaceAt(i, cs[i].replaceAt(top, climb(q.leaves[i], idx, q.sib[i]))))
    pure val ccaps = range(0, p.k).foldl(pf.ccaps, (cs, j) =>
      cs.replaceAt(j, cs[j].replaceAt(top, climb(flatExt(r.steps[j].evals), idx / 16^(j + 1), r.steps[j].sib))))
    // without folding the final polynomial itself is corrected: add a multiple of the product over earlier points
    pure val before = range(0, qi).foldl({ poly: [E1], ok: true }, (s, i) => {
      pure val xi = ext(pointAt(p, c.xs[i] % 2^p.lde))
      { poly: range(0, s.poly.length() + 1).foldl([], (l, d) => l.append(
          esub(if (d > 0) s.poly[d - 1] else E0, if (d < s.poly.length()) emul(xi, s.poly[d]) else E0))), ok: true } }).poly
    pure val lack = ediv(esub(eadd(r.old, flawAt(flaws, qi, p.k)), epoly(pf.fin, ext(x0))), epoly(before, ext(x0)))
    pure val fin = if (p.k > 0) pf.fin else
      range(0, pf.fin.length()).foldl([], (l, d) => l.append(if (d < before.length()) eadd(pf.fin[d], emul(lack, before[d])) else pf.fin[d]))
    { caps: caps, ccaps: ccaps, fin: fin, queries: pf.queries.replaceAt(qi, { leaves: q.leaves, sib: q.sib, steps: r.steps }) }
  }

  pure def shapeOf(x: int): Params = {
    // one in eight is as deep as the field allows (domains of up to 2^32 points, seven foldings) or of a low rate
    pure val deep = (x / 2^36) % 8 == 7
    pure val k = if (deep) [3, 4, 5, 6, 7, 0, 0][(x / 2^39) % 7] else [1, 2, 1, 0, 2][x % 5]
    pure val rate = if (deep) (if (k == 0) 6 + (x / 5) % 10 else 1 + (x / 5) % imin(15, 32 - 4 * k)) else 1 + (x / 5) % 5
    // degree at least 16^k, domain at least 16^(k+1)
    pure val lde = imin(32, 4 * k + imax(4, rate) + (x / 32) % (if (k >= 2) 3 else 5))
    { lde: lde, rate: rate, pow: [0, 1 + (x / 2^33) % 8, 8 + (x / 2^33) % 8, 16, 17 + (x / 2^33) % 8][(x / 160) % 5], k: k,
      ncst: (x / 800) % 4, nrouted: 1 + (x / 3200) % 6, nwires: 1 + (x / 19200) % 14, nch: 1 + (x / 2^19) % 3,
      npp: (x / 2^21) % 4, q: 1 + (x / 2^23) % 5, hiding: (x / 2^26) % 6 == 0 }
  }
  pure def imax(a: int, b: int): int = if (a > b) a else b

  // everything except the choice of what is wrong
  type Setting = { p: Params, c: Chals, o: Opens, pf: Proof, nq: int }
  pure def setting(x: int, r: int, s: int, hseed: int): Setting = {
    pure val p = shapeOf(x)
    pure val nq0 = 1 + (x / 2^29) % 3
    pure val nq = if (p.k > 2) 1 else if (p.k > 0) (if (p.k == 2) imin(nq0, 2) else nq0) else imin(nq0, finLen(p))
    pure val total = range(0, 4).foldl(0, (acc, i) => acc + polys(p)[i])
    pure val el = elems(r, s, 420)
    pure val top0 = (x / 2^31) % 16
    // distinct cap entries for distinct queries
    pure val xs = range(0, nq).foldl([], (l, i) => {
      pure val low = (hseed / 2^(40 * i)) % 2^(p.lde - 4)
      pure val hi = (hseed / 2^(40 * i + 20)) % (2^(64 - p.lde) - 2)
      l.append(hi * 2^p.lde + ((top0 + 5 * i) % 16) * 2^(p.lde - 4) + low) })
    pure val h = hashes(hseed, 64 + 16 * p.k + nq * (4 * p.lde + p.k * p.lde))
    // challenges are never special: they are hashes
    pure val ce = elems(hseed * 7919 % P^8, 1, 8)
    pure val cf = elems(hseed * 104729 % P^8, 1, 8)
    {
      p: p, nq: nq,
      c: { zeta: (ce[0], ce[1]), alpha: (ce[2], ce[3]), betas: [(ce[4], ce[5]), (ce[6], ce[7]), (cf[0], cf[1]), (cf[2], cf[3]), (cf[4], cf[5]), (cf[6], cf[7]), (cf[0], cf[7])].slice(0, p.k),
           pow: el[0] % 2^(64 - p.pow) % P, xs: xs },
      o: { at: range(0, total).foldl([], (l, i) => l.append((el[2 * i], el[2 * i + 1]))),
           next: range(0, p.nch).foldl([], (l, i) => l.append((el[2 * total + 2 * i], el[2 * total + 2 * i + 1]))) },
      pf: {
        caps: range(0, 4).foldl([], (l, i) => l.append(cut(h, 16 * i, 16))),
        ccaps: range(0, p.k).foldl([], (l, j) => l.append(cut(h, 64 + 16 * j, 16))),
        fin: range(0, finLen(p)).foldl([], (l, i) => l.append((el[(3 * i) % 400], el[(5 * i + 7) % 400]))),
        queries: range(0, nq).foldl([], (l, i) => {
          pure val base = 64 + 16 * p.k + i * (4 * p.lde + p.k * p.lde)
          l.append({
            leaves: range(0, 4).foldl([], (a, t) => a.append(range(0, leafLen(p, t)).foldl([], (b, e) => b.append(el[(100 * i + 37 * t + e) % 420])))),
            sib: range(0, 4).foldl([], (a, t) => a.append(cut(h, base + t * p.lde, p.lde - 4))),
            steps: range(0, p.k).foldl([], (a, j) => a.append({
              evals: range(0, 16).foldl([], (b, e) => b.append((el[(200 * j + 32 * i + 2 * e) % 419], el[(200 * j + 32 * i + 2 * e + 1) % 420]))),
              sib: cut(h, base + 4 * p.lde + j * p.lde, p.lde - 4 - 4 * (j + 1)) }))
          })
        })
      }
    }
  }
  pure def build(s: Setting, flaws: List[Flaw]): Proof =
    range(0, s.nq).foldl(s.pf, (pf, i) => completeQuery(s.p, s.c, s.o, pf, i, flaws))

  pure def bumpI(l: List[int], i: int, d: int, m: int): List[int] = l.replaceAt(i % l.length(), (l[i % l.length()] + d) % m)
  pure def bumpE(l: List[Ext], i: int, e: Ext): List[Ext] = l.replaceAt(i % l.length(), eadd(l[i % l.length()], e))
  pure def withQuery(pf: Proof, i: int, q: Query): Proof = pf.with("queries", pf.queries.replaceAt(i, q))

  // ---- tampering with what Merkle paths protect
  pure def tamperMerkle(s: Setting, pf: Proof, how: int, a: int, b: int, d: int): Proof = {
    pure val qi = a % s.nq
    pure val q = pf.queries[qi]
    pure val t = b % 4
    pure val idx = s.c.xs[qi] % 2^s.p.lde
    pure val top = idx / 2^(s.p.lde - 4)
    pure val j = if (s.p.k == 0) 0 else b % s.p.k
    pure val lev = if (s.p.lde > 4) (a / 8) % (s.p.lde - 4) else 0
    pure val slev = if (s.p.k > 0 and q.steps[j].sib.length() > 0) (a / 8) % q.steps[j].sib.length() else 0
    if (how == 0 and s.p.lde > 4) withQuery(pf, qi, q.with("sib", q.sib.replaceAt(t, bumpI(q.sib[t], lev, d, R))))
    else if (how == 1) pf.with("caps", pf.caps.replaceAt(t, bumpI(pf.caps[t], top, d, R)))
    // an entry no query reads
    else if (how == 2) pf.with("caps", pf.caps.replaceAt(t, bumpI(pf.caps[t], top + 1, d, R)))
    else if (how == 3 and s.p.k > 0 and q.steps[j].sib.length() > 0)
      withQuery(pf, qi, q.with("steps", q.steps.replaceAt(j, { evals: q.steps[j].evals, sib: bumpI(q.steps[j].sib, slev, d, R) })))
    else if (how == 4 and s.p.k > 0) pf.with("ccaps", pf.ccaps.replaceAt(j, bumpI(pf.ccaps[j], top, d, R)))
    else if (how == 5 and s.p.k > 0) pf.with("ccaps", pf.ccaps.replaceAt(j, bumpI(pf.ccaps[j], top + 3, d, R)))
    // neighbouring siblings exchanged
    else if (how == 6 and s.p.lde > 5) withQuery(pf, qi, q.with("sib", q.sib.replaceAt(t,
      q.sib[t].replaceAt(0, q.sib[t][1]).replaceAt(1, q.sib[t][0]))))
    // paths or leaves of two trees exchanged
    else if (how == 7 and s.p.lde > 4) withQuery(pf, qi, q.with("sib", q.sib.replaceAt(t, q.sib[(t + 1) % 4]).replaceAt((t + 1) % 4, q.sib[t])))
    // the siblings' chain stays, two entries of the cap are exchanged
    else if (how == 8) pf.with("caps", pf.caps.replaceAt(t, pf.caps[t].replaceAt(top, pf.caps[t][(top + 1 + a % 15) % 16]).replaceAt((top + 1 + a % 15) % 16, pf.caps[t][top])))
    // an element that is committed but, in hiding mode, used nowhere else
    else if (how == 9 and s.p.hiding) withQuery(pf, qi, q.with("leaves", q.leaves.replaceAt(1 + t % 3, bumpI(q.leaves[1 + t % 3], leafLen(s.p, 1 + t % 3) - 1 - a % 4, d % (P - 1) + 1, P))))
    // evaluations exchanged within the layer
    else if (how == 10 and s.p.k > 0) {
      pure val pos = idx / 16^j % 16
      pure val u = (pos + 1 + a % 15) % 16
      pure val v = (pos + 1 + (a / 15) % 15) % 16
      pure val e = q.steps[j].evals
      withQuery(pf, qi, q.with("steps", q.steps.replaceAt(j, { sib: q.steps[j].sib, evals: e.replaceAt(u, e[v]).replaceAt(v, e[u]) })))
    }
    // one query answered with the data of another
    else if (s.nq > 1) withQuery(pf, qi, pf.queries[(qi + 1) % s.nq])
    else pf
  }
  // an element moved and all the hashes above it recomputed
  pure def rehash(s: Setting, pf: Proof, qi: int): Proof = {
    pure val q = pf.queries[qi]
    pure val idx = s.c.xs[qi] % 2^s.p.lde
    pure val top = idx / 2^(s.p.lde - 4)
    { ...pf,
      caps: range(0, 4).foldl(pf.caps, (cs, i) => cs.replaceAt(i, cs[i].replaceAt(top, climb(q.leaves[i], idx, q.sib[i])))),
      ccaps: range(0, s.p.k).foldl(pf.ccaps, (cs, j) => cs.replaceAt(j, cs[j].replaceAt(top, climb(flatExt(q.steps[j].evals), idx / 16^(j + 1), q.steps[j].sib)))) }
  }

  action presented = {
    nondet x = 0.to(2^44 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    val st = setting(x, r, s, hseed)
    val pf = build(st, [])
    ev' = event("honest", st.p, st.c, st.o, pf, friOk(st.p, st.c, st.o, pf))
  }
  action merkle = {
    nondet x = 0.to(2^44 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet how = 0.to(11).oneOf()
    nondet a = 0.to(10000).oneOf()
    nondet b = 0.to(23).oneOf()
    nondet d = 1.to(R - 1).oneOf()
    nondet small = 0.to(3).oneOf()
    val st = setting(x, r, s, hseed)
    val good = build(st, [])
    val pf = tamperMerkle(st, good, how, a, b, if (small == 0) 1 else d)
    ev' = event(if (pf == good) "honest" else if (how == 2 or how == 5 and st.p.k > 0) "unread" else "merkle", st.p, st.c, st.o, pf, friOk(st.p, st.c, st.o, pf))
  }
  // leaf or layer element moved, without and with consistent hashes
  action element = {
    nondet x = 0.to(2^44 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet a = 0.to(10000).oneOf()
    nondet b = 0.to(31).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    nondet re = 0.to(1).oneOf()
    val st = setting(x, r, s, hseed)
    val good = build(st, [])
    val qi = a % st.nq
    val q = good.queries[qi]
    val e = pairErr(a / 7, d)
    val q2 = if (b >= 16 and st.p.k > 0) {
        val j = b % st.p.k
        q.with("steps", q.steps.replaceAt(j, { sib: q.steps[j].sib, evals: bumpE(q.steps[j].evals, a / 3, e) }))
      } else q.with("leaves", q.leaves.replaceAt(b % 4, bumpI(q.leaves[b % 4], a / 3, d, P)))
    val moved = withQuery(good, qi, q2)
    val pf = if (re == 0) moved else rehash(st, moved, qi)
    ev' = event("element", st.p, st.c, st.o, pf, friOk(st.p, st.c, st.o, pf))
  }
  // one inconsistency built in, everything later agrees with it
  action inconsistent = {
    nondet x = 0.to(2^44 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet a = 0.to(10000).oneOf()
    nondet b = 0.to(5).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    nondet more = 0.to(3).oneOf()
    val st = setting(x, r, s, hseed)
    val e = pairErr(a, d)
    val f = { q: a % st.nq, step: b % (st.p.k + 1), off: e }
    // sometimes a second one that cancels the first in the sum (or equals it), in another query or another layer
    val opp = if (b < 4) esub(E0, e) else e
    val flaws = if (more == 0 and st.nq > 1) [f, { ...f, q: (f.q + 1) % st.nq, off: opp }]
      else if (more == 1 and st.p.k > 0) [f, { ...f, step: (f.step + 1) % (st.p.k + 1), off: opp }]
      else [f]
    val pf = build(st, flaws)
    ev' = event("inconsistent", st.p, st.c, st.o, pf, friOk(st.p, st.c, st.o, pf))
  }
  // claims and challenges other than those the proof was made for
  action otherClaim = {
    nondet x = 0.to(2^44 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet how = 0.to(7).oneOf()
    nondet a = 0.to(10000).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    val st = setting(x, r, s, hseed)
    val pf = build(st, [])
    val e = pairErr(a, d)
    val pf2 = if (how == 0) pf.with("fin", bumpE(pf.fin, a / 2, e)) else pf
    val o2 = if (how == 1) st.o.with("at", bumpE(st.o.at, a / 2, e)) else if (how == 2) st.o.with("next", bumpE(st.o.next, a / 2, e)) else st.o
    val qi = a % st.nq
    val bitAt = (a / 3) % st.p.lde
    val xi = st.c.xs[qi]
    val c2 = if (how == 3) st.c.with("alpha", eadd(st.c.alpha, e))
      else if (how == 4) st.c.with("zeta", eadd(st.c.zeta, e))
      else if (how == 5 and st.p.k > 0) st.c.with("betas", bumpE(st.c.betas, a / 2, e))
      // another index: one bit flipped
      else if (how == 6) st.c.with("xs", st.c.xs.replaceAt(qi, if (bit(xi, bitAt) == 1) xi - 2^bitAt else xi + 2^bitAt))
      // not enough work; bits above the index are irrelevant
      else if (how == 7) (if (st.p.pow == 0) st.c.with("xs", st.c.xs.replaceAt(qi, xi % 2^st.p.lde))
        else st.c.with("pow", if (a % 3 == 0) 2^(64 - st.p.pow) else if (a % 3 == 1) P - 1 else 2^(64 - st.p.pow) + (d / 2^8) % (P / 2 - 2^32)))
      else st.c
    ev' = event("otherClaim", st.p, c2, o2, pf2, friOk(st.p, c2, o2, pf2))
  }
  // the response of the proof of work around its bound (nothing folded, one query: the rest is quick)
  action work = {
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet bits = 0.to(32).oneOf()
    nondet how = 0.to(9).oneOf()
    nondet d = 0.to(2^64 - 1).oneOf()
    val base = setting(160 * (x - x % 2) + 3, r, 1, hseed)
    val st = { ...base, p: { ...base.p, pow: bits }, nq: 1 }
    val bound = 2^(64 - bits)
    val w = if (how == 0) bound - 1 else if (how == 1) bound else if (how == 2) bound + 1 else if (how == 3) 2 * bound - 1
      else if (how == 4) bound + d % bound else if (how == 5) 2 * bound else if (how == 6) bound * 2^(1 + d % 8) + d % bound
      else if (how == 7) bound / 2 + d % (bound / 2) else if (how == 8) 2^(d % 64) else d
    val c = { ...st.c, pow: w % P, xs: st.c.xs.slice(0, 1) }
    val s1 = { ...st, c: c, pf: { ...st.pf, queries: st.pf.queries.slice(0, 1) } }
    val pf = build(s1, [])
    ev' = event("work", s1.p, c, s1.o, pf, friOk(s1.p, c, s1.o, pf))
  }
  // nothing folded: what meets the final polynomial is off
  action unfolded = {
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet k = 0.to(143).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    val base = setting(160 * (x - x % 2) + 3, r, 1, hseed)
    val c = { ...base.c, xs: base.c.xs.slice(0, 1) }
    val st = { ...base, nq: 1, c: c, pf: { ...base.pf, queries: base.pf.queries.slice(0, 1) } }
    val pf = build(st, [{ q: 0, step: 0, off: pairErr(2 * k + 1, d) }])
    ev' = event("inconsistent", st.p, c, st.o, pf, friOk(st.p, c, st.o, pf))
  }
  // challenges no hash is likely to give, which the check has to get right all the same: folding at a point of the
  // queried coset (which then simply is the evaluation there)
  action landed = {
    nondet x = 0.to(2^36 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet t = 0.to(15).oneOf()
    nondet how = 0.to(3).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    val y = x - x % 5 + (if (x % 2 == 0) 0 else 1)
    val base = setting(y, r, 1, hseed)
    val p = base.p
    val idx = base.c.xs[0] % 2^p.lde
    val x0 = pointAt(p, idx)
    val j = t % p.k
    val pos = idx / 16^j % 16
    // in the last layer the evaluation that meets the final polynomial is the one landed on
    val at = if (j < p.k - 1) t else (pos + 5) % 16
    val c = { ...base.c, xs: base.c.xs.slice(0, 1), betas: base.c.betas.replaceAt(j, ext(cosetPoint(fpow(x0, 16^j), pos, at))) }
    val st = { ...base, nq: 1, c: c, pf: { ...base.pf, queries: base.pf.queries.slice(0, 1) } }
    val good = build(st, [])
    val q = good.queries[0]
    // another evaluation of the layer, or that very one, is moved (with the hashes above it)
    val w = if (how == 1) at else (at + 1 + d % 15) % 16
    val pf = if (how == 0) good
      else rehash(st, withQuery(good, 0, q.with("steps", q.steps.replaceAt(j, { sib: q.steps[j].sib, evals: bumpE(q.steps[j].evals, w, pairErr(d, d)) }))), 0)
    ev' = event(if (how == 0) "honest" else "landed", st.p, c, st.o, pf, friOk(st.p, c, st.o, pf))
  }
  // and an opening point that is a queried point: nothing is said about the quotient there, whatever it is taken to be
  action struck = {
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet hseed = 0.to(2^500 - 1).oneOf()
    nondet which = 0.to(1).oneOf()
    val base = setting(x, r, 1, hseed)
    val x0 = pointAt(base.p, base.c.xs[0] % 2^base.p.lde)
    val z = if (which == 0) x0 else fmul(x0, finv(rootOfUnity(base.p.lde - base.p.rate)))
    val c = { ...base.c, xs: base.c.xs.slice(0, 1), zeta: ext(z) }
    val st = { ...base, nq: 1, c: c, pf: { ...base.pf, queries: base.pf.queries.slice(0, 1) } }
    val pf = build(st, [])
    ev' = event("struck", st.p, c, st.o, pf, friOk(st.p, c, st.o, pf))
  }
  action stepMerkle = any { presented, merkle, merkle, merkle, element }
  action stepFri = any { presented, element, inconsistent, inconsistent, inconsistent, otherClaim, otherClaim, work, work, unfolded, unfolded, unfolded, landed, struck }

  // ---- model-level facts
  val inv = (ev.op == "honest" or ev.op == "unread" implies ev.accept)
    and (ev.op == "work" implies ev.accept == (ev.pow < 2^(64 - ev.p.pow)))
    and (ev.op == "inconsistent" or ev.op == "merkle" or ev.op == "struck" implies not(ev.accept))
}
