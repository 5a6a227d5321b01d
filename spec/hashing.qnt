// The hash functions as observed by a caller: a sequence of independent hash requests, each of which must return
// exactly the value of the published construction, whatever was asked before.
module hashing {
  import field.* from "./field"
  import poseidon.* from "./poseidon"
  import data.* from "./data"

  type Ev = { op: str, args: List[int], n: int, out: List[int] }
  var ev: Ev
  var hist: List[Ev]

  action init = all { ev' = { op: "init", args: [], n: 0, out: [] }, hist' = [] }
  action say(op: str, args: List[int], n: int, out: List[int]): bool = {
    val e = { op: op, args: args, n: n, out: out }
    all { ev' = e, hist' = hist.append(e) }
  }

  // ---- Goldilocks
  action glPermutation = {
    nondet r = 0.to(P^12 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    val st = elems(r, s, 12)
    say("glPerm", st, 0, glPerm(st))
  }
  action glSponge = {
    nondet r = 0.to(P^34 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet len = 0.to(34).oneOf()
    nondet m = 1.to(20).oneOf()
    val input = elems(r, s, len)
    say("glHashNToM", input, m, glHashNToM(input, m))
  }
  // HashNoPad also takes elements that are not reduced yet
  action glHashing = {
    nondet r = 0.to(P^34 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet len = 0.to(34).oneOf()
    nondet big = 0.to(5).oneOf()
    nondet hi = 0.to(2^144 - 1).oneOf()
    val input = elems(r, s, len)
    val arg = range(0, len).foldl([], (acc, i) => acc.append(if (big == 0 and i % 3 == 0) input[i] + (hi / (i + 1)) * P else input[i]))
    say("glHash", arg, 0, glHash(arg))
  }
  action glExtension = {
    nondet r = 0.to(P^24 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet k = 0.to(29).oneOf()
    val st = exts(r, s, 12)
    any {
      say("ePerm", flat(st), 0, flat(ePerm(st))),
      say("eMds", flat(st), 0, flat(eMds(st))),
      say("eSbox", flat(st), 0, flat(range(0, 12).foldl([], (acc, i) => acc.append(esbox7(st[i]))))),
      say("eConst", flat(st), k, flat(eAddRc(st, k)))
    }
  }
  action stepGl = any { glPermutation, glPermutation, glSponge, glHashing, glExtension }

  // ---- BN254
  pure val EDGEN: List[int] = [0, 1, 2, 2^64 - 1, 2^64, 2^128, 2^192 - 1, 2^253, R - 1, R - 2, (R - 1) / 2, P, 2^56 - 1, 2^56, 2^112, 2^224, 2^224 - 1]
  pure def nat(r: int, s: int): int = if (s % 2 == 0) r % R else EDGEN[r % EDGEN.length()]
  action bnPermutation = {
    nondet a = 0.to(R - 1).oneOf()
    nondet b = 0.to(R - 1).oneOf()
    nondet c = 0.to(R - 1).oneOf()
    nondet d = 0.to(R - 1).oneOf()
    nondet s = 0.to(15).oneOf()
    val st = [nat(a, s), nat(b, s / 2), nat(c, s / 4), nat(d, s / 8)]
    any { say("bnPerm", st, 0, bnPerm(st)), say("bnTwoToOne", [st[0], st[1]], 0, [bnTwoToOne(st[0], st[1])]) }
  }
  action bnHashing = {
    nondet r = 0.to(P^40 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet len = 0.to(40).oneOf()
    val input = elems(r, s, len)
    any { say("bnHash", input, 0, [bnHash(input)]), say("bnHashOrNoop", input, 0, [bnHashOrNoop(input)]) }
  }
  action bnShort = {
    nondet r = 0.to(P^10 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet len = 0.to(10).oneOf()
    val input = elems(r, s, len)
    say("bnHashOrNoop", input, 0, [bnHashOrNoop(input)])
  }
  action bnChunks = {
    nondet a = 0.to(R - 1).oneOf()
    nondet s = 0.to(1).oneOf()
    say("bnToVec", [nat(a, s)], 0, bnToVec(nat(a, s)))
  }
  action stepBn = any { bnPermutation, bnHashing, bnShort, bnChunks }
  action step = any { stepGl, stepBn }

  // ---- model-level facts
  val isGl = Set("glPerm", "glHashNToM", "glHash", "ePerm", "eMds", "eSbox", "eConst").contains(ev.op)
  val inRange = ev.out.indices().forall(i => ev.out[i] >= 0 and ev.out[i] < (if (isGl) P else R))
  // the 56-bit chunks determine the hash
  val chunksInjective = ev.op == "bnToVec" implies
    range(0, 5).foldl(0, (a, i) => a + ev.out[i] * 2^(56 * i)) == ev.args[0]
  // no two different requests of the same construction collide (padding-free sponges collide only for trailing zeros
  // of different lengths, so lengths are compared as well)
  val noCollision = hist.indices().forall(i => or {
    hist[i].op != ev.op, hist[i].n != ev.n, hist[i].args == ev.args, hist[i].args.length() != ev.args.length(),
    ev.op == "glHash", hist[i].out != ev.out })
  // deterministic: the same request always has the same answer
  val deterministic = hist.indices().forall(i => or { hist[i].op != ev.op, hist[i].n != ev.n, hist[i].args != ev.args, hist[i].out == ev.out })
  val inv = inRange and chunksInjective and noCollision and deterministic
}
