// Straight-line programs over the arithmetic gadget: a register machine.
//
// A base register holds a residue `v` together with an exclusive upper bound `w` on the unreduced
// integer that the circuit may carry for it (canonical registers have w = P).  Operations that return
// reduced values need canonical operands; unreduced ones let w grow; a reduction is enabled only while
// the bound documented for it holds.  Extension and algebra registers are always canonical except for
// the unreduced extension operations, which are modelled with a bound as well.
module fieldops {
  import field.* from "./field"

  type Reg = { v: int, w: int }
  type EReg = { v: Ext, w: int }
  // args: register operands in order; aux: integer literals; out: residues of the result
  type Ev = { op: str, args: List[int], aux: List[int], out: List[int], sat: bool }

  var regs: List[Reg]
  var eregs: List[EReg]
  var aregs: List[Alg]
  var ev: Ev

  pure val NOEV: Ev = { op: "init", args: [], aux: [], out: [], sat: true }
  pure val MAXREGS = 40

  pure val EDGE: Set[int] = Set(0, 1, 2, 3, 6, 7, 8, 2^16 - 1, 2^16, 2^31, 2^32 - 2, 2^32 - 1, 2^32, 2^32 + 1, 2^33,
    2^48, 2^63 - 1, 2^63, P - 2^32 - 1, P - 2^32, P - 2^32 + 1, P - 2^31, P - 3, P - 2, P - 1, (P - 1) / 2, (P + 1) / 2,
    P - 2^16, 1753635133440165772, 4294967297, 18446744065119617026)
  pure val EXPONENTS: Set[int] = Set(0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 2^16, 2^32 - 1, 2^32, 2^63, P - 2, P - 1, P,
    2^64 - 1)

  action init = all {
    regs' = [{ v: 0, w: P }, { v: 1, w: P }, { v: P - 1, w: P }],
    eregs' = [{ v: E0, w: P }, { v: E1, w: P }, { v: (P - 1, P - 1), w: P }],
    aregs' = [A0, A1],
    ev' = NOEV
  }

  def room = regs.length() < MAXREGS and eregs.length() < MAXREGS and aregs.length() < MAXREGS

  action push(op: str, args: List[int], aux: List[int], r: Reg): bool = all {
    room,
    regs' = regs.append(r), eregs' = eregs, aregs' = aregs,
    ev' = { op: op, args: args, aux: aux, out: [r.v], sat: true }
  }
  action epush(op: str, args: List[int], aux: List[int], r: EReg): bool = all {
    room,
    regs' = regs, eregs' = eregs.append(r), aregs' = aregs,
    ev' = { op: op, args: args, aux: aux, out: [r.v._1, r.v._2], sat: true }
  }
  action apush(op: str, args: List[int], aux: List[int], r: Alg): bool = all {
    room,
    regs' = regs, eregs' = eregs, aregs' = aregs.append(r),
    ev' = { op: op, args: args, aux: aux, out: [r._1._1, r._1._2, r._2._1, r._2._2], sat: true }
  }
  // an operation without result, or whose result is a native boolean
  action note(op: str, args: List[int], aux: List[int], out: List[int]): bool = all {
    room,
    regs' = regs, eregs' = eregs, aregs' = aregs, ev' = { op: op, args: args, aux: aux, out: out, sat: true }
  }
  // an operation that no witness can satisfy: the program ends here
  action dead(op: str, args: List[int], aux: List[int]): bool = all {
    room,
    regs' = regs, eregs' = eregs, aregs' = aregs, ev' = { op: op, args: args, aux: aux, out: [], sat: false }
  }

  // p-th of several indices below n packed in one nondeterministic choice
  pure def pick(t: int, p: int, n: int): int = ((t / 64^p) % 64) % n

  pure def can(r: Reg): bool = r.w <= P
  pure def ecan(r: EReg): bool = r.w <= P

  // ---------- inputs
  action input = {
    nondet e = EDGE.oneOf()
    nondet r = 0.to(P - 1).oneOf()
    nondet edge = Set(true, false).oneOf()
    nondet c = Set(0, 1).oneOf()   // 0: witness variable, 1: circuit constant
    val x = if (edge) e else r
    push("in", [], [x, c], { v: x, w: P })
  }
  action einput = {
    nondet e1 = EDGE.oneOf()
    nondet e2 = EDGE.oneOf()
    nondet r1 = 0.to(P - 1).oneOf()
    nondet r2 = 0.to(P - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    nondet c = Set(0, 1).oneOf()
    val x = ((if (k == 0 or k == 2) e1 else r1), (if (k == 0 or k == 1) e2 else r2))
    epush("ein", [], [x._1, x._2, c], { v: x, w: P })
  }
  // ---------- base field
  action base2(op: str, i: int, j: int): bool = {
    val a = regs[i]
    val b = regs[j]
    if (op == "add") all { can(a) and can(b), push(op, [i, j], [], { v: fadd(a.v, b.v), w: P }) }
    else if (op == "sub") all { can(a) and can(b), push(op, [i, j], [], { v: fsub(a.v, b.v), w: P }) }
    else if (op == "mul") all { can(a) and can(b), push(op, [i, j], [], { v: fmul(a.v, b.v), w: P }) }
    else if (op == "addNR") all { a.w + b.w <= P * 2^144, push(op, [i, j], [], { v: fadd(a.v, b.v), w: a.w + b.w }) }
    else if (op == "subNR") all { a.w + b.w * (P - 1) <= P * 2^144,
                                  push(op, [i, j], [], { v: fsub(a.v, b.v), w: a.w + b.w * (P - 1) }) }
    else all { a.w * b.w <= P * 2^144, push(op, [i, j], [], { v: fmul(a.v, b.v), w: a.w * b.w }) }
  }
  action base3(op: str, i: int, j: int, k: int): bool = {
    val a = regs[i]
    val b = regs[j]
    val c = regs[k]
    val r = fadd(fmul(a.v, b.v), c.v)
    if (op == "mulAdd") all { can(a) and can(b) and can(c), push(op, [i, j, k], [], { v: r, w: P }) }
    else all { a.w * b.w + c.w <= P * 2^144, push(op, [i, j, k], [], { v: r, w: a.w * b.w + c.w }) }
  }
  action reduce(i: int): bool = all { regs[i].w <= P * 2^144, push("reduce", [i], [], { v: regs[i].v, w: P }) }
  action reduceBits(i: int): bool = {
    nondet n = Set(16, 64, 80, 128, 144, 160, 176).oneOf()
    all { regs[i].w <= P * 2^n, push("reduceBits", [i], [n], { v: regs[i].v, w: P }) }
  }
  action inverse(i: int): bool = all {
    can(regs[i]),
    if (regs[i].v == 0) note("invZero", [i], [], [0])   // only the flag is meaningful
    else push("inv", [i], [], { v: finv(regs[i].v), w: P })
  }
  action assertEq(i: int, j: int): bool = all {
    can(regs[i]) and can(regs[j]),
    if (regs[i].v == regs[j].v) note("assertEq", [i, j], [], []) else dead("assertEq", [i, j], [])
  }
  action rangeCheck(i: int): bool = all { can(regs[i]), note("rangeCheck", [i], [], []) }
  action root = {
    nondet n = 0.to(32).oneOf()
    note("root", [], [n], [rootOfUnity(n)])
  }
  action subgroup = {
    nondet n = 0.to(7).oneOf()
    note("subgroup", [], [n], range(0, 2^n).foldl({ l: [], x: 1 }, (s, i) => { l: s.l.append(s.x), x: fmul(s.x, rootOfUnity(n)) }).l)
  }

  // ---------- operands given in one step, so that they can be correlated: the exact integer a*b + c (which the
  // circuit must divide by P) is steered to either side of a boundary of machine words or of a multiple of P
  pure def clip(x: int): int = if (x < 0) 0 else if (x >= P) P - 1 else x
  pure val BOUNDARY: Set[int] = Set(1, 2^16, 2^31, 2^32, 2^33, 2^48, 2^63, 2^64, 2^65, 2^96, 2^127, 2^128 - 2^64, P - 1, P, 2 * P,
    (2^32 - 1) * P, 2^32 * P, (2^32 + 1) * P, 2^63 * P, (P - 2) * P, (P - 1) * P, (P - 1) * (P - 1), (2^32 - 1) * (2^32 - 1) + P)
  pure def steer(t: int, a: int, da: int, dt: int): { a: int, b: int, c: int } = {
    val aa = if (a < 1) 1 else clip(a)
    val b = clip(t / aa + da)
    { a: aa, b: b, c: clip(t - aa * b + dt) }
  }
  action correlated(ext: bool): bool = {
    nondet t = BOUNDARY.oneOf()
    nondet t2 = BOUNDARY.oneOf()
    nondet k = 0.to(64).oneOf()
    nondet da = (-2).to(2).oneOf()
    nondet dt = (-2).to(2).oneOf()
    nondet e = EDGE.oneOf()
    nondet r = 0.to(P - 1).oneOf()
    nondet how = 0.to(3).oneOf()
    nondet flip = 0.to(1).oneOf()
    nondet op = Set("mulAddIn", "mulAddIn", "mulIn", "addIn", "subIn").oneOf()
    nondet con = 0.to(7).oneOf()   // which operands are circuit constants
    val a0 = if (how == 0) 2^k + da else if (how == 1) e else if (how == 2) r else 2^32 - 1
    val s = steer(t, a0, da, dt)
    // extra room above the boundary: c as large as it can be
    val c = if (how == 3) clip(P - 1 - dt * dt) else s.c
    val x = if (flip == 1) { a: s.b, b: s.a, c: c } else { a: s.a, b: s.b, c: c }
    if (ext) {
      // the products of both coordinates near the boundary (which the other operand pair steers independently)
      val y = steer(t2, if (how == 2) r else e, da, dt)
      val u = if (flip == 1) (x.a, y.a) else (x.a, x.a)
      val v = if (flip == 1) (x.b, y.b) else (x.b, y.b)
      val w = (x.c, y.c)
      epush("mulAddEIn", [], [u._1, u._2, v._1, v._2, w._1, w._2, con], { v: eadd(emul(u, v), w), w: P })
    } else if (op == "mulAddIn") push(op, [], [x.a, x.b, x.c, con], { v: fadd(fmul(x.a, x.b), x.c), w: P })
    else if (op == "mulIn") push(op, [], [x.a, x.b, con], { v: fmul(x.a, x.b), w: P })
    else if (op == "addIn") push(op, [], [x.a, clip(t - x.a + dt), con], { v: fadd(x.a, clip(t - x.a + dt)), w: P })
    else push(op, [], [x.a, x.c, con], { v: fsub(x.a, x.c), w: P })
  }
  // an unreduced integer q*P + r handed to the reduction, with the quotient at an edge of its own
  action reduceDirect = {
    nondet k = 0.to(143).oneOf()
    nondet d = (-1).to(1).oneOf()
    nondet e = EDGE.oneOf()
    nondet r = 0.to(P - 1).oneOf()
    nondet q0 = 0.to(2^144 - 1).oneOf()
    nondet how = 0.to(3).oneOf()
    nondet n = Set(0, 16, 64, 80, 128, 144, 160, 176).oneOf()   // 0: the default reduction
    val bits = if (n == 0) 144 else n
    val q = (if (how == 0) 2^k + d else if (how == 1) q0 else if (how == 2) 2^bits - 1 + d else e) % 2^bits
    val x = if (q < 0) 0 else q
    push("reduceIn", [], [x * P + (if (how == 1) r else e), n], { v: if (how == 1) r else e, w: P })
  }

  action baseStep = {
    nondet i = 0.to(regs.length() - 1).oneOf()
    nondet j = 0.to(regs.length() - 1).oneOf()
    nondet k = 0.to(regs.length() - 1).oneOf()
    nondet op2 = Set("add", "sub", "mul", "addNR", "subNR", "mulNR").oneOf()
    nondet op3 = Set("mulAdd", "mulAddNR").oneOf()
    any {
      input, input, base2(op2, i, j), base2(op2, i, j), base2(op2, i, j), base3(op3, i, j, k), base3(op3, i, j, k),
      reduce(i), reduceBits(i), inverse(i), rangeCheck(i), root, subgroup, assertEq(i, i),
      correlated(false), correlated(false), correlated(false), reduceDirect
    }
  }
  // rarely taken, ends the program
  action baseDead = {
    nondet i = 0.to(regs.length() - 1).oneOf()
    nondet j = 0.to(regs.length() - 1).oneOf()
    assertEq(i, j)
  }
  def alive = ev.sat
  action stepBase = all { alive, if (regs.length() > 12) any { baseStep, baseStep, baseStep, baseStep, baseDead } else baseStep }

  // ---------- extension field
  action ext2(op: str, i: int, j: int): bool = {
    val a = eregs[i]
    val b = eregs[j]
    val cc = ecan(a) and ecan(b)
    if (op == "addE") all { cc, epush(op, [i, j], [], { v: eadd(a.v, b.v), w: P }) }
    else if (op == "subE") all { cc, epush(op, [i, j], [], { v: esub(a.v, b.v), w: P }) }
    else if (op == "mulE") all { cc, epush(op, [i, j], [], { v: emul(a.v, b.v), w: P }) }
    else if (op == "addENR") all { a.w + b.w <= P * 2^144, epush(op, [i, j], [], { v: eadd(a.v, b.v), w: a.w + b.w }) }
    else if (op == "subENR") all { a.w + b.w * (P - 1) <= P * 2^144,
                                   epush(op, [i, j], [], { v: esub(a.v, b.v), w: a.w + b.w * (P - 1) }) }
    else all { 8 * a.w * b.w <= P * 2^144, epush(op, [i, j], [], { v: emul(a.v, b.v), w: 8 * a.w * b.w }) }
  }
  action ext3(op: str, i: int, j: int, k: int): bool = {
    val a = eregs[i]
    val b = eregs[j]
    val c = eregs[k]
    val cc = ecan(a) and ecan(b) and ecan(c)
    if (op == "mulAddE") all { cc, epush(op, [i, j, k], [], { v: eadd(emul(a.v, b.v), c.v), w: P }) }
    else if (op == "subMulE") all { cc, epush(op, [i, j, k], [], { v: emul(esub(a.v, b.v), c.v), w: P }) }
    else all { 8 * a.w * b.w + c.w <= P * 2^144,
               epush(op, [i, j, k], [], { v: eadd(emul(a.v, b.v), c.v), w: 8 * a.w * b.w + c.w }) }
  }
  action reduceE(i: int): bool = all { eregs[i].w <= P * 2^144, epush("reduceE", [i], [], { v: eregs[i].v, w: P }) }
  action scalarMulE(i: int, j: int): bool = all {
    ecan(eregs[i]) and can(regs[j]), epush("scalarMulE", [i, j], [], { v: escale(eregs[i].v, regs[j].v), w: P })
  }
  action inverseE(i: int): bool = all {
    ecan(eregs[i]),
    if (eregs[i].v == E0) dead("invE", [i], []) else epush("invE", [i], [], { v: einv(eregs[i].v), w: P })
  }
  action divE(i: int, j: int): bool = all {
    ecan(eregs[i]) and ecan(eregs[j]),
    if (eregs[j].v == E0) dead("divE", [i, j], []) else epush("divE", [i, j], [], { v: ediv(eregs[i].v, eregs[j].v), w: P })
  }
  action expE(i: int): bool = {
    nondet x = EXPONENTS.oneOf()
    nondet y = 0.to(2^64 - 1).oneOf()
    nondet z = 0.to(40).oneOf()
    nondet kind = 0.to(2).oneOf()
    val e = if (kind == 0) x else if (kind == 1) y else z
    all { ecan(eregs[i]), epush("expE", [i], [e], { v: epow(eregs[i].v, e), w: P }) }
  }
  action isZeroE(i: int): bool = all { ecan(eregs[i]), note("isZeroE", [i], [], [if (eregs[i].v == E0) 1 else 0]) }
  action lookupE(i: int, j: int): bool = {
    nondet b = Set(0, 1).oneOf()
    all { ecan(eregs[i]) and ecan(eregs[j]), epush("lookupE", [i, j], [b], { v: if (b == 1) eregs[j].v else eregs[i].v, w: P }) }
  }
  // terms/pairs drawn from the registers: t gives register indices for positions 0..9
  action reducePowers(i: int): bool = {
    nondet n = 0.to(9).oneOf()
    nondet t = 0.to(64^10).oneOf()
    val idx = range(0, n).foldl([], (acc, p) => acc.append(pick(t, p, eregs.length())))
    all {
      ecan(eregs[i]) and idx.indices().forall(p => ecan(eregs[idx[p]])),
      epush("reducePowers", [i].concat(idx), [], { v: epoly(idx.foldl([], (acc, q) => acc.append(eregs[q].v)), eregs[i].v), w: P })
    }
  }
  action innerProduct(c: int, i: int): bool = {
    nondet n = 0.to(5).oneOf()
    nondet t = 0.to(64^10).oneOf()
    val idx = range(0, 2 * n).foldl([], (acc, p) => acc.append(pick(t, p, eregs.length())))
    all {
      can(regs[c]) and ecan(eregs[i]) and idx.indices().forall(p => ecan(eregs[idx[p]])),
      epush("innerProduct", [c, i].concat(idx), [],
        { v: range(0, n).foldl(eregs[i].v, (acc, q) =>
            eadd(acc, escale(emul(eregs[idx[2 * q]].v, eregs[idx[2 * q + 1]].v), regs[c].v))), w: P })
    }
  }
  action lookup2E(i: int, j: int, k: int): bool = {
    nondet l = 0.to(eregs.length() - 1).oneOf()
    nondet b = 0.to(3).oneOf()
    all {
      ecan(eregs[i]) and ecan(eregs[j]) and ecan(eregs[k]) and ecan(eregs[l]),
      epush("lookup2E", [i, j, k, l], [b % 2, b / 2], { v: eregs[[i, j, k, l][b]].v, w: P })
    }
  }
  action assertEqE(i: int, j: int): bool = all {
    ecan(eregs[i]) and ecan(eregs[j]),
    if (eregs[i].v == eregs[j].v) note("assertEqE", [i, j], [], []) else dead("assertEqE", [i, j], [])
  }
  // ---------- algebra
  action ainput(i: int, j: int): bool = all {
    ecan(eregs[i]) and ecan(eregs[j]), apush("ain", [i, j], [], (eregs[i].v, eregs[j].v))
  }
  action alg2(op: str): bool = {
    nondet i = 0.to(aregs.length() - 1).oneOf()
    nondet j = 0.to(aregs.length() - 1).oneOf()
    val a = aregs[i]
    val b = aregs[j]
    apush(op, [i, j], [], if (op == "addA") aadd(a, b) else if (op == "subA") asub(a, b) else amul(a, b))
  }
  action scalarMulA(i: int): bool = {
    nondet j = 0.to(aregs.length() - 1).oneOf()
    all { ecan(eregs[i]), apush("scalarMulA", [i, j], [], ascale(eregs[i].v, aregs[j])) }
  }
  // Horner-like accumulation of (eval, prod) over n domain points with given weights
  action interpolateA = {
    nondet n = 1.to(4).oneOf()
    nondet t = 0.to(64^8).oneOf()
    nondet d = 0.to(P^8 - 1).oneOf()
    val idx = range(0, n).foldl([], (acc, p) => acc.append(pick(t, p, aregs.length())))
    val point = aregs[pick(t, 4, aregs.length())]
    val st = range(0, n).foldl({ e: aregs[pick(t, 5, aregs.length())], p: aregs[pick(t, 6, aregs.length())] }, (s, q) => {
      val term = asub(point, (ext(((d / P^(q)) % P)), E0))
      { e: aadd(amul(s.e, term), amul(ascale(ext(((d / P^(4 + q)) % P)), aregs[idx[q]]), s.p)), p: amul(s.p, term) }
    })
    all {
      room,
      regs' = regs, eregs' = eregs, aregs' = aregs.append(st.e).append(st.p),
      ev' = { op: "interpA", args: [pick(t, 4, aregs.length()), pick(t, 5, aregs.length()), pick(t, 6, aregs.length())].concat(idx),
              aux: range(0, n).foldl([], (acc, q) => acc.append(((d / P^(q)) % P)).append(((d / P^(4 + q)) % P))),
              out: [st.e._1._1, st.e._1._2, st.e._2._1, st.e._2._2, st.p._1._1, st.p._1._2, st.p._2._1, st.p._2._2], sat: true }
    }
  }
  action extStep = {
    nondet i = 0.to(eregs.length() - 1).oneOf()
    nondet j = 0.to(eregs.length() - 1).oneOf()
    nondet k = 0.to(eregs.length() - 1).oneOf()
    nondet b = 0.to(regs.length() - 1).oneOf()
    nondet op2 = Set("addE", "subE", "mulE", "addENR", "subENR", "mulENR").oneOf()
    nondet op3 = Set("mulAddE", "subMulE", "mulAddENR").oneOf()
    nondet opa = Set("addA", "subA", "mulA").oneOf()
    any {
      einput, einput, input, correlated(true), correlated(true), ext2(op2, i, j), ext2(op2, i, j), ext3(op3, i, j, k), reduceE(i), scalarMulE(i, b),
      all { eregs[i].v != E0, inverseE(i) }, all { eregs[j].v != E0, divE(i, j) }, expE(i), isZeroE(i), lookupE(i, j),
      lookup2E(i, j, k), reducePowers(i), innerProduct(b, i), assertEqE(i, i), ainput(i, j), alg2(opa), scalarMulA(i), interpolateA
    }
  }
  action extDead = {
    nondet i = 0.to(eregs.length() - 1).oneOf()
    nondet j = 0.to(eregs.length() - 1).oneOf()
    any { inverseE(0), divE(i, 0), assertEqE(i, j) }
  }
  action stepExt = all { alive, if (eregs.length() > 12) any { extStep, extStep, extStep, extStep, extDead } else extStep }
  action step = any { stepBase, stepExt }

  // ---------- invariants of the model itself
  val canonicalRegs = and {
    regs.indices().forall(i => canonical(regs[i].v) and regs[i].v < regs[i].w),
    eregs.indices().forall(i => ecanonical(eregs[i].v)),
    aregs.indices().forall(i => ecanonical(aregs[i]._1) and ecanonical(aregs[i]._2))
  }
  // every reduction stays below the native field: no wrap-around is possible for an honest program
  val noOverflow = regs.indices().forall(i => regs[i].w <= P * 2^144) and P * 2^144 + P < R
  // defining equations of the last operation (inverse laws)
  val inverseLaw = and {
    (ev.op == "inv") implies fmul(ev.out[0], regs[ev.args[0]].v) == 1,
    (ev.op == "invE" and ev.sat) implies emul((ev.out[0], ev.out[1]), eregs[ev.args[0]].v) == E1,
    (ev.op == "divE" and ev.sat) implies emul((ev.out[0], ev.out[1]), eregs[ev.args[1]].v) == eregs[ev.args[0]].v,
    (ev.op == "root") implies (fpow(ev.out[0], 2^ev.aux[0]) == 1
                               and (ev.aux[0] > 0 implies fpow(ev.out[0], 2^(ev.aux[0] - 1)) == P - 1))
  }
  val inv = canonicalRegs and noOverflow and inverseLaw
}
