// Behaviours of the vanishing identity: circuits with any layout of gates, selectors, wires, challenges and chunks, openings
// for which the identity holds, and openings with one thing moved.
module plonkrun {
  import field.* from "./field"
  import gates.* from "./gates"
  import plonk.* from "./plonk"
  import data.* from "./data"
  // ---- behaviours
  type Ev = { op: str, cd: Common, ch: { betas: List[int], gammas: List[int], alphas: List[int], zeta: List[int] },
    o: { constants: List[int], sigmas: List[int], wires: List[int], zs: List[int], zsNext: List[int], partials: List[int], quotient: List[int] },
    pih: List[int], row: int, seen_: List[int], accept: bool }
  var ev: Ev
  pure def maxOf(l: List[int]): int = l.foldl(0, (a, b) => if (a < b) b else a)
  pure def mapInts(l: List[Gate], f: (Gate) => int): List[int] = l.foldl([], (a, g) => a.append(f(g)))
  // gate sets small enough to evaluate quickly
  pure def mkCommon(x: int, wr: List[int], kd: List[int]): Common = {
    pure val ng = 1 + x % 6
    pure val gs = range(0, ng).foldl([], (acc, i) => acc.append(mkGate(KINDS[kd[i] % KINDS.length()], 1 + 4 * (kd[i] / 64 % 4096) + kd[i] % 2, wr)))
    // cut points of the selector groups
    pure val cuts = if ((x / 6) % 3 == 0 or ng == 1) [0, ng] else if ((x / 6) % 3 == 1 or ng == 2) [0, 1 + (x / 18) % (ng - 1), ng]
      else [0, 1, 1 + 1 + (x / 18) % (ng - 2), ng]
    pure val q = [1, 2, 3, 4, 8][(x / 90) % 5]
    pure val npp = (x / 450) % 4
    // the last chunk of routed wires may be shorter than the others
    pure val routed = q * (npp + 1) - (if ((x / 2^31) % 2 == 0) 0 else (x / 2^32) % q)
    {
      gs: gs,
      groups: range(0, cuts.length() - 1).foldl([], (acc, i) => acc.append((cuts[i], cuts[i + 1]))),
      sel: range(0, ng).foldl([], (acc, i) => acc.append(range(0, cuts.length() - 1).foldl(0, (s, j) => if (i >= cuts[j]) j else s))),
      ngc: maxOf(mapInts(gs, g => numConstraints(g))),
      q: q, npp: npp, routed: routed, nch: 1 + (x / 1800) % 3, degreeBits: 1 + (x / 5400) % 14,
      kis: range(0, routed).foldl([], (acc, i) => acc.append(fpow(7, i)))
    }
  }
  pure def enc(cd: Common, ch: Chal, o: Open, pih: List[int], row: int, seen_: List[Ext], ok: bool, op: str): Ev = {
    op: op, cd: cd, ch: { betas: ch.betas, gammas: ch.gammas, alphas: ch.alphas, zeta: [ch.zeta._1, ch.zeta._2] },
    o: { constants: flat(o.constants), sigmas: flat(o.sigmas), wires: flat(o.wires), zs: flat(o.zs), zsNext: flat(o.zsNext),
      partials: flat(o.partials), quotient: flat(o.quotient) },
    pih: pih, row: row, seen_: flat(seen_), accept: ok }
  pure val C0: Common = { gs: [], sel: [], groups: [], ngc: 0, q: 1, nch: 0, npp: 0, routed: 0, degreeBits: 0, kis: [] }
  pure val O0: Open = { constants: [], sigmas: [], wires: [], zs: [], zsNext: [], partials: [], quotient: [] }
  action init = ev' = enc(C0, { betas: [], gammas: [], alphas: [], zeta: E0 }, O0, [], 0 - 1, [], true, "init")

  // move entry i of a list of elements
  pure def bumpAt(l: List[Ext], i: int, d: Ext): List[Ext] = if (l.length() == 0) l else bump(l, i % l.length(), d)
  action identity = {
    nondet x = 0.to(2^40 - 1).oneOf()
    nondet wr = 0.to(P^16 - 1).oneOf()
    nondet kr = 0.to(2^240 - 1).oneOf()
    nondet r = 0.to(P^420 - 1).oneOf()
    nondet cr = 0.to(P^16 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet mode = 0.to(11).oneOf()
    nondet hit = 0.to(1000).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    nondet onSubgroup = 0.to(11).oneOf()
    nondet rowMode = 0.to(2).oneOf()
    val cd = mkCommon(x, elems(wr, s, 16), range(0, 6).foldl([], (acc, i) => acc.append(kr / 2^(40 * i) % 2^40)))
    val nw = maxOf(mapInts(cd.gs, g => numWires(g)).append(cd.routed))
    val ns = cd.groups.length()
    val ncons = ns + maxOf(mapInts(cd.gs, g => numConsts(g))) + x % 2
    val pool = exts(r, s, nw + ncons + cd.routed + cd.nch * (2 + cd.npp + cd.q))
    val c = elems(cr, if (s == 5) 0 else 1, 3 * cd.nch + 6)
    val zeta = if (onSubgroup == 0) ext(rootOfUnity(cd.degreeBits)) else if (onSubgroup == 1) E1 else (c[3 * cd.nch], c[3 * cd.nch + 1])
    val ch = { betas: c.slice(0, cd.nch), gammas: c.slice(cd.nch, 2 * cd.nch), alphas: c.slice(2 * cd.nch, 3 * cd.nch), zeta: zeta }
    val pih = c.slice(3 * cd.nch + 2, 3 * cd.nch + 6)
    val at = nw + ncons
    val raw = { wires: pool.slice(0, nw), constants: pool.slice(nw, at), sigmas: pool.slice(at, at + cd.routed),
      zs: pool.slice(at + cd.routed, at + cd.routed + cd.nch),
      zsNext: pool.slice(at + cd.routed + cd.nch, at + cd.routed + 2 * cd.nch),
      partials: pool.slice(at + cd.routed + 2 * cd.nch, at + cd.routed + cd.nch * (2 + cd.npp)),
      quotient: pool.slice(at + cd.routed + cd.nch * (2 + cd.npp), at + cd.routed + cd.nch * (2 + cd.npp + cd.q)) }
    // the row may be one that an honest prover could have at a point of the trace: selectors name one gate
    val gi = hit % cd.gs.length()
    val row = if (rowMode == 0) 0 - 1 else gi
    val o1 = if (rowMode == 0) raw else raw.with("constants", range(0, ns).foldl(raw.constants, (l, j) =>
      l.replaceAt(j, if (cd.sel[gi] == j) ext(gi) else ext(UNUSED))))
    val o = if (rowMode < 2) o1 else o1.with("wires", complete(cd.gs[gi], { w: o1.wires, c: o1.constants.slice(ns, ncons), h: pih }).w)
    // accepted identity, then possibly one thing moved
    val good = if (zeta == E1 or zetaN(cd, zeta) == E1) o else solve(cd, ch, o, pih)
    val e0 = pairErr(hit, d)
    // an error of the quotient is mostly such that the two sides of the identity differ by e0
    val zn0 = zetaN(cd, zeta)
    val e = if ((mode == 2 or mode == 7) and hit % 7 > 0 and zn0 != E1 and zn0 != E0)
        ediv(e0, emul(esub(zn0, E1), if (mode == 2) epow(zn0, (hit % (cd.nch * cd.q)) % cd.q) else E1)) else e0
    // errors of two challenges that cancel in the sum (or are equal)
    val two = hit % (cd.nch * cd.q)
    val other = (two + cd.q * (1 + (hit / 7) % 2)) % (cd.nch * cd.q)
    val t =
      if (mode == 0) good.with("wires", bumpAt(good.wires, hit, e))
      else if (mode == 1) good.with("constants", bumpAt(good.constants, hit, e))
      else if (mode == 2) good.with("quotient", bumpAt(good.quotient, hit, e))
      else if (mode == 3) good.with("zs", bumpAt(good.zs, hit, e))
      else if (mode == 4) good.with("partials", bumpAt(good.partials, hit, e))
      else if (mode == 5) good.with("sigmas", bumpAt(good.sigmas, hit, e))
      else if (mode == 6) good.with("zsNext", bumpAt(good.zsNext, hit, e))
      else if (mode == 7) good.with("quotient", bump(bump(good.quotient, two, e), other, if (hit % 3 == 0) e else esub(E0, e)))
      else good
    ev' = enc(cd, ch, t, pih, if (mode >= 8) row else 0 - 1, gateTerms(cd, t, pih), quotientOk(cd, ch, t, pih), if (mode >= 8 and onSubgroup > 1) "solved" else "moved")
  }
  action step = identity

  // ---- model-level facts
  val zn = zetaN(ev.cd, (ev.ch.zeta[0], ev.ch.zeta[1]))
  val solvable = (ev.op == "solved" and zn != E1) implies ev.accept
  // on a row whose selectors name one gate only that gate's constraints are visible, scaled by a non-zero filter
  val isolated = (ev.op != "init" and ev.row >= 0) implies {
    val ns = ev.cd.groups.length()
    val cons = pairs(ev.o.constants)
    val own = constraints(ev.cd.gs[ev.row], { w: pairs(ev.o.wires), c: cons.slice(ns, cons.length()), h: ev.pih })
    val f = gateFilter(ev.cd, ev.row, ext(ev.row))
    val seen = pairs(ev.seen_)
    f != E0 and seen.indices().forall(j => seen[j] == (if (j < own.length()) emul(own[j], f) else E0))
  }
  val inv = solvable and isolated
}
