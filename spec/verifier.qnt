// The whole verifier: which proofs are accepted for which circuit description and verifying key.
module verifier {
  import field.* from "./field"
  import poseidon.* from "./poseidon"
  import duplex.* from "./duplex"
  import gates.* from "./gates"
  import plonk.* from "./plonk"
  import fri.* from "./fri"

  // A circuit description (cd, wires, ncst, npub, rate, pow, k, nq), a verifying key (digest, pf.caps[0]), public inputs
  // and a proof. craft says how the prover of the bundled instances deviated ("": honest); the verdict does not look at it, id is its number,
  // edits are alterations the prover itself makes at the end.
  type Inst = { craft: str, cd: Common, wires: int, ncst: int, npub: int, rate: int, pow: int, k: int, nq: int,
    digest: int, pub: List[int], open: Open, pf: Proof, witness: int, id: int, edits: List[Edit] }
  // An alteration. sec: which part; a, b: which list of that part; i, j: which entries; c: coordinate; d: amount.
  // op: move (add d), over (add d*P: same residue, not canonical), swap (entries i and j), drop, again (repeat the entry), more (append zero)
  type Edit = { sec: str, a: int, b: int, i: int, j: int, c: int, op: str, d: int }

  pure def params(v: Inst): Params = { lde: v.cd.degreeBits + v.rate, rate: v.rate, pow: v.pow, k: v.k, ncst: v.ncst,
    nrouted: v.cd.routed, nwires: v.wires, nch: v.cd.nch, npp: v.cd.npp, q: v.cd.q, hiding: false }

  // ---- every list has exactly the length the circuit description demands
  pure def shapeOk(v: Inst): bool = {
    pure val p = params(v)
    pure val capped = p.lde - 4
    and {
      v.pub.length() == v.npub,
      v.open.constants.length() == v.ncst, v.open.sigmas.length() == v.cd.routed, v.open.wires.length() == v.wires,
      v.open.zs.length() == v.cd.nch, v.open.zsNext.length() == v.cd.nch,
      v.open.partials.length() == v.cd.nch * v.cd.npp, v.open.quotient.length() == v.cd.nch * v.cd.q,
      v.pf.caps.length() == 4, v.pf.caps.indices().forall(i => v.pf.caps[i].length() == 16),
      v.pf.ccaps.length() == v.k, v.pf.ccaps.indices().forall(i => v.pf.ccaps[i].length() == 16),
      v.pf.fin.length() == finLen(p),
      v.pf.queries.length() == v.nq,
      v.pf.queries.indices().forall(i => {
        pure val q = v.pf.queries[i]
        and {
          q.leaves.length() == 4, q.sib.length() == 4,
          q.leaves.indices().forall(t => q.leaves[t].length() == leafLen(p, t)),
          q.sib.indices().forall(t => q.sib[t].length() == capped),
          q.steps.length() == v.k,
          q.steps.indices().forall(s => q.steps[s].evals.length() == 16 and q.steps[s].sib.length() == capped - 4 * (s + 1))
        }
      })
    }
  }
  // ---- every Goldilocks element of the proof is below P (public inputs are the caller's business)
  pure def allExt(l: List[Ext]): bool = l.indices().forall(i => canonical(l[i]._1) and canonical(l[i]._2))
  pure def allBase(l: List[int]): bool = l.indices().forall(i => canonical(l[i]))
  pure def rangeOk(v: Inst): bool = and {
    allExt(v.open.constants), allExt(v.open.sigmas), allExt(v.open.wires), allExt(v.open.zs), allExt(v.open.zsNext),
    allExt(v.open.partials), allExt(v.open.quotient), allExt(v.pf.fin), canonical(v.witness),
    v.pf.queries.indices().forall(i => {
      pure val q = v.pf.queries[i]
      q.leaves.indices().forall(t => allBase(q.leaves[t])) and q.steps.indices().forall(s => allExt(q.steps[s].evals))
    })
  }
  // ---- challenges
  pure def atZeta(o: Open): List[Ext] = o.constants.concat(o.sigmas).concat(o.wires).concat(o.zs).concat(o.partials).concat(o.quotient)
  type Drawn = { pih: List[int], plonk: Chal, fri: Chals }
  pure def challenges(v: Inst): Drawn = {
    pure val n = v.cd.nch
    pure val pih = glHash(v.pub)
    pure val b = draw(observeCap(observeAll(observeBn(FRESH, v.digest), pih), v.pf.caps[1]), n)
    pure val g = draw(b.c, n)
    pure val a = draw(observeCap(g.c, v.pf.caps[2]), n)
    pure val z = draw(observeCap(a.c, v.pf.caps[3]), 2)
    pure val al = draw(observeAll(observeAll(z.c, flatExt(atZeta(v.open))), flatExt(v.open.zsNext)), 2)
    pure val f = v.pf.ccaps.foldl({ c: al.c, l: [] }, (s, cap) => {
      pure val d = draw(observeCap(s.c, cap), 2)
      { c: d.c, l: s.l.append((d.out[0], d.out[1])) }
    })
    pure val w = draw(observe1(observeAll(f.c, flatExt(v.pf.fin)), v.witness), 1)
    pure val x = draw(w.c, v.nq)
    { pih: pih,
      plonk: { betas: b.out, gammas: g.out, alphas: a.out, zeta: (z.out[0], z.out[1]) },
      fri: { zeta: (z.out[0], z.out[1]), alpha: (al.out[0], al.out[1]), betas: f.l, pow: w.out[0], xs: x.out } }
  }
  // "" : accepted, otherwise the first ground for refusal
  pure def verdict(v: Inst): str =
    if (not(shapeOk(v))) "shape"
    else if (not(rangeOk(v))) "range"
    else {
      pure val c = challenges(v)
      if (not(quotientOk(v.cd, c.plonk, v.open, c.pih))) "identity"
      else if (c.fri.pow >= 2^(64 - v.pow)) "work"
      else if (not(friOk(params(v), c.fri, { at: atZeta(v.open), next: v.open.zsNext }, v.pf))) "opening"
      else ""
    }
}
