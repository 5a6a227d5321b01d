// The quotient identity of the proof system at the random point zeta: gate constraints behind their selector filters,
// the permutation argument with its partial products, folded with alpha, against Z_H(zeta) * t(zeta).
module plonk {
  import field.* from "./field"
  import gates.* from "./gates"
  // Quint evaluates a val when it is first used and does not restore the parameters of an operator that is entered
  // again from its own operator argument, so lists are built with foldl here rather than with an operator of ours.

  pure val UNUSED: int = 2^32 - 1
  type Common = { gs: List[Gate], sel: List[int], groups: List[(int, int)], ngc: int, q: int, nch: int, npp: int,
    routed: int, degreeBits: int, kis: List[int] }
  type Chal = { betas: List[int], gammas: List[int], alphas: List[int], zeta: Ext }
  type Open = { constants: List[Ext], sigmas: List[Ext], wires: List[Ext], zs: List[Ext], zsNext: List[Ext],
    partials: List[Ext], quotient: List[Ext] }

  pure def gateFilter(cd: Common, row: int, s: Ext): Ext = {
    pure val g = cd.groups[cd.sel[row]]
    pure val f = range(g._1, g._2).foldl(E1, (acc, i) => if (i == row) acc else emul(acc, esub(ext(i), s)))
    if (cd.groups.length() > 1) emul(f, esub(ext(UNUSED), s)) else f
  }
  // constraint j of the row: the filtered constraints j of all gates, added up
  pure def gateTerms(cd: Common, o: Open, pih: List[int]): List[Ext] = {
    pure val ns = cd.groups.length()
    pure val row = { w: o.wires, c: o.constants.slice(ns, o.constants.length()), h: pih }
    range(0, cd.gs.length()).foldl(range(0, cd.ngc).foldl([], (acc_, j) => acc_.append(E0)), (acc, i) => {
      pure val f = gateFilter(cd, i, o.constants[cd.sel[i]])
      pure val cs = constraints(cd.gs[i], row)
      range(0, cs.length()).foldl(acc, (a, j) => a.replaceAt(j, eadd(a[j], emul(cs[j], f))))
    })
  }
  pure def zetaN(cd: Common, z: Ext): Ext = range(0, cd.degreeBits).foldl(z, (x, i) => emul(x, x))
  // L_0(z) = (z^n - 1) / (n (z - 1))
  pure def l0(cd: Common, z: Ext): Ext =
    ediv(esub(zetaN(cd, z), E1), escale(esub(z, E1), 2^cd.degreeBits))
  pure def prodAll(l: List[Ext]): Ext = l.foldl(E1, (a, x) => emul(a, x))
  pure def permTerms(cd: Common, ch: Chal, o: Open, i: int): List[Ext] = {
    pure val num = range(0, cd.routed).foldl([], (acc_, j) => acc_.append(eadd(eadd(escale(escale(ch.zeta, cd.kis[j]), ch.betas[i]), o.wires[j]), ext(ch.gammas[i]))))
    pure val den = range(0, cd.routed).foldl([], (acc_, j) => acc_.append(eadd(eadd(escale(o.sigmas[j], ch.betas[i]), o.wires[j]), ext(ch.gammas[i]))))
    pure val accs = [o.zs[i]].concat(o.partials.slice(i * cd.npp, (i + 1) * cd.npp)).append(o.zsNext[i])
    range(0, cd.npp + 1).foldl([], (acc_, k) => acc_.append(esub(
      emul(accs[k], prodAll(num.slice(k * cd.q, imin((k + 1) * cd.q, cd.routed)))),
      emul(accs[k + 1], prodAll(den.slice(k * cd.q, imin((k + 1) * cd.q, cd.routed)))))))
  }
  pure def terms(cd: Common, ch: Chal, o: Open, pih: List[int]): List[Ext] = {
    pure val l = l0(cd, ch.zeta)
    pure val z1 = range(0, cd.nch).foldl([], (acc_, i) => acc_.append(emul(l, esub(o.zs[i], E1))))
    range(0, cd.nch).foldl(z1, (acc, i) => acc.concat(permTerms(cd, ch, o, i))).concat(gateTerms(cd, o, pih))
  }
  pure def vanishing(cd: Common, ch: Chal, o: Open, pih: List[int]): List[Ext] = {
    pure val t = terms(cd, ch, o, pih)
    range(0, cd.nch).foldl([], (acc_, i) => acc_.append(epoly(t, ext(ch.alphas[i]))))
  }
  pure def chunk(cd: Common, o: Open, i: int): List[Ext] = o.quotient.slice(i * cd.q, (i + 1) * cd.q)
  pure def quotientOk(cd: Common, ch: Chal, o: Open, pih: List[int]): bool = and {
    // L_0 has no value at zeta = 1
    ch.zeta != E1,
    {
      pure val v = vanishing(cd, ch, o, pih)
      pure val zn = zetaN(cd, ch.zeta)
      0.to(cd.nch - 1).forall(i => v[i] == emul(esub(zn, E1), epoly(chunk(cd, o, i), zn)))
    }
  }
  // choose the quotient openings so that the identity holds (possible when Z_H(zeta) is invertible)
  pure def solve(cd: Common, ch: Chal, o: Open, pih: List[int]): Open = {
    pure val v = vanishing(cd, ch, o, pih)
    pure val zn = zetaN(cd, ch.zeta)
    pure val zh = esub(zn, E1)
    o.with("quotient", range(0, cd.nch).foldl(o.quotient, (qs, i) => {
      pure val rest = epoly(chunk(cd, o, i).replaceAt(0, E0), zn)
      qs.replaceAt(i * cd.q, esub(ediv(v[i], zh), rest))
    }))
  }
}
