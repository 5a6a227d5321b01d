// The prover game: the environment states a gadget application, the prover then chooses all auxiliary
// values.  Whatever it chooses, an accepted run must carry `out` - the specification admits no other
// behaviour.  (That the gadget *relations* have this property is proved in lemmas.qnt at the real
// parameters; here statements are enumerated so that the real constraints can be played against every
// prover move in MOVES.)
module adversary {
  import field.* from "./field"
  import poseidon.* from "./poseidon"

  // args: operand residues / integers, flattened; out: the only admissible result
  type Ev = { op: str, args: List[int], out: List[int] }
  var ev: Ev
  var played: int

  // moves of the prover at one auxiliary-value request; the harness plays each of them at each request
  pure val MOVES: Set[str] = Set("borrow", "lend", "wrap1", "wrap2", "wrap3", "wrap4", "wrap5", "free+1", "free0", "free-1",
    "freeHi", "unreduced", "split-", "splitLo", "splitHi", "splitTop", "inc", "dec", "addP", "zero", "bits+R")

  pure val EDGE: Set[int] = Set(0, 1, 2, 7, 2^31, 2^32 - 2, 2^32 - 1, 2^32, 2^32 + 1, 2^63, P - 2^32, P - 2^32 + 1,
    P - 2^31, P - 2, P - 1, (P - 1) / 2, (P + 1) / 2)

  action init = all { ev' = { op: "init", args: [], out: [] }, played' = 0 }
  action say(op: str, args: List[int], out: List[int]): bool = all { ev' = { op: op, args: args, out: out }, played' = played + 1 }
  pure def fl(a: Ext): List[int] = [a._1, a._2]

  action base = {
    nondet i1 = EDGE.oneOf()
    nondet i2 = EDGE.oneOf()
    nondet i3 = EDGE.oneOf()
    nondet r1 = 0.to(P - 1).oneOf()
    nondet r2 = 0.to(P - 1).oneOf()
    nondet r3 = 0.to(P - 1).oneOf()
    nondet m = 0.to(7).oneOf()
    val a = if (m % 2 == 0) i1 else r1
    val b = if ((m / 2) % 2 == 0) i2 else r2
    val c = if (m / 4 == 0) i3 else r3
    any {
      say("mulAdd", [a, b, c], [fadd(fmul(a, b), c)]),
      // results just above zero leave room for a non-canonical representative
      { nondet d = Set(0, 1, 2, 2^32 - 3, 2^32 - 2).oneOf()
        say("mulAdd", [a, b, fsub(d, fmul(a, b))], [d]) },
      say("add", [a, b], [fadd(a, b)]),
      say("sub", [a, b], [fsub(a, b)]),
      say("sub", [a, a], [0]),
      say("mul", [a, b], [fmul(a, b)]),
      all { a != 0, say("mul", [a, finv(a)], [1]) },
      all { a != 0, say("inv", [a], [finv(a)]) }
    }
  }
  action reductions = {
    nondet d = Set(0, 1, 2^32 - 2, 2^32 - 1, P - 1).oneOf()
    nondet h = 0.to(2^144 - 1).oneOf()
    nondet small = 0.to(2^64).oneOf()
    nondet n = Set(16, 64, 128, 144, 176).oneOf()
    nondet top = Set(true, false).oneOf()
    any {
      say("reduce", [h * P + d], [d]),
      say("reduce", [small], [small % P]),
      say("reduce", [(2^144 - 1) * P + d], [d]),
      say("reduceBits", [(if (top) 2^n - 1 else h % 2^n) * P + d, n], [d])
    }
  }
  action extension = {
    nondet i1 = EDGE.oneOf()
    nondet i2 = EDGE.oneOf()
    nondet r1 = 0.to(P - 1).oneOf()
    nondet r2 = 0.to(P - 1).oneOf()
    nondet r3 = 0.to(P - 1).oneOf()
    nondet m = 0.to(3).oneOf()
    val a = ((if (m % 2 == 0) i1 else r1), (if (m / 2 == 0) i2 else r2))
    val b = (r3, i1)
    any {
      say("addE", fl(a).concat(fl(b)), fl(eadd(a, b))),
      say("subE", fl(a).concat(fl(a)), fl(E0)),
      say("mulE", fl(a).concat(fl(b)), fl(emul(a, b))),
      say("mulAddE", fl(a).concat(fl(b)).concat(fl(esub(E1, emul(a, b)))), fl(E1)),
      say("subMulE", fl(a).concat(fl(b)).concat(fl(a)), fl(emul(esub(a, b), a))),
      say("scalarMulE", fl(a).concat([i2]), fl(escale(a, i2))),
      all { a != E0, say("invE", fl(a), fl(einv(a))) },
      all { a != E0, say("divE", fl(b).concat(fl(a)), fl(ediv(b, a))) },
      say("expE", fl(a).concat([5]), fl(epow(a, 5)))
    }
  }
  action hash = {
    nondet s = 0.to(P^12 - 1).oneOf()
    val st = range(0, 12).foldl([], (acc, i) => acc.append((s / P^i) % P))
    say("perm", st, glPerm(st))
  }
  // chunks of a hash: the wrap-around candidate v+R exists only for small v
  action chunks = {
    nondet v = 0.to(R - 1).oneOf()
    nondet w = 0.to(2^254 - R - 1).oneOf()
    any { say("toVec", [v], bnToVec(v)), say("toVec", [w], bnToVec(w)) }
  }
  action step = any { base, base, reductions, extension, chunks }
  action stepHash = hash

  val canonicalOut = (ev.op != "toVec") implies ev.out.indices().forall(i => canonical(ev.out[i]))
  val movesComplete = MOVES.size() == 21
  val inv = canonicalOut and movesComplete
}
