// Range-check lifecycle.  Several circuit builders are alive at the same time; each offers some range-check
// facility (its own checker, commitments, or none), the process-wide switch may force bit decomposition at the
// moment a builder first uses the gadget.  Checks requested on a builder are enforced by the time it is finished.
module rangecheck {
  import field.* from "./field"

  // kind: "field", "pair" (extension element), "bits"; lit: the value is a constant of the circuit, not of the prover's
  type Req = { kind: str, n: int, v: List[int], lit: bool }
  type Builder = { cap: str, forced: bool, pad: int, reqs: List[Req], done: bool }
  type Ev = { op: str, b: int, cap: str, flag: bool, n: int, kind: str, v: List[int], lit: bool, verdict: str }

  var builders: List[Builder]
  var forceBits: bool
  var ev: Ev
  pure val E: Ev = { op: "init", b: 0, cap: "", flag: false, n: 0, kind: "", v: [], lit: false, verdict: "" }

  // ---- what must hold of a finished builder
  pure def okReq(r: Req): bool =
    if (r.kind == "bits") r.v[0] < 2^r.n else r.v.foldl(true, (a, x) => a and x < P)
  pure def allOk(b: Builder): bool = b.reqs.foldl(true, (a, r) => a and okReq(r))
  pure def mode(b: Builder): str = if (b.forced) "bits" else b.cap
  // the commitment checker works on 16-bit limbs and only pays off (and is only used) with enough checks
  pure def aligned(b: Builder): bool = b.reqs.foldl(true, (a, r) => a and (r.kind != "bits" or r.n % 16 == 0))
  pure def exact(b: Builder): bool = mode(b) != "commit" or (b.pad == FULLPAD and aligned(b))
  pure val FULLPAD = 62500
  // "accept": must be satisfiable; "reject": must not; "notaccept-or-correct" cases are folded into these:
  //   an in-range builder the commitment checker may refuse is "maybe"
  pure def verdict(b: Builder): str =
    if (not(allOk(b))) "reject" else if (exact(b)) "accept" else "maybe"

  action init = all { builders' = [], forceBits' = false, ev' = E }

  action setSwitch(f: bool): bool = all {
    builders.length() < 3, f != forceBits,
    forceBits' = f, builders' = builders, ev' = { ...E, op: "switch", flag: f }
  }
  action newBuilder(cap: str, pad: int): bool = all {
    builders.length() < 4,
    builders' = builders.append({ cap: cap, forced: forceBits, pad: if (cap == "commit" and not(forceBits)) pad else 0, reqs: [], done: false }),
    forceBits' = forceBits,
    ev' = { ...E, op: "new", b: builders.length(), cap: cap, flag: forceBits, n: if (cap == "commit" and not(forceBits)) pad else 0 }
  }
  action request(b: int, kind: str, n: int, v: List[int], lit: bool): bool = all {
    not(builders[b].done), builders[b].reqs.length() < 8,
    builders' = builders.replaceAt(b, { ...builders[b], reqs: builders[b].reqs.append({ kind: kind, n: n, v: v, lit: lit }) }),
    forceBits' = forceBits,
    ev' = { ...E, op: "check", b: b, n: n, kind: kind, v: v, lit: lit }
  }
  action finish(b: int): bool = all {
    not(builders[b].done), builders[b].reqs.length() > 0,
    builders' = builders.replaceAt(b, { ...builders[b], done: true }),
    forceBits' = forceBits,
    ev' = { ...E, op: "finish", b: b, verdict: verdict(builders[b]) }
  }

  // ---- value classes
  pure val INFIELD: Set[int] = Set(0, 1, 2^16 - 1, 2^16, 2^32 - 1, 2^32, 2^48, 2^63, P - 2^32, P - 2^32 - 1, P - 2, P - 1)
  pure val OUTFIELD: Set[int] = Set(P, P + 1, P + 2^31, 2^64 - 1, 2^64, 2^64 + 1, 2^64 + 2^32, 2^65 - 1, 2^66 + 3, 2^70, 2^96, 2^128,
    2^144, 2^160, 2^253, R - 1, R - 2, R - 2^32, R - 2^64, R - P, 2 * P - 1)
  pure val WIDTHS: Set[int] = Set(16, 32, 48, 64, 80, 128, 144, 160, 192, 240)
  pure val ODDWIDTHS: Set[int] = Set(1, 7, 8, 15, 17, 31, 33, 63, 100, 140, 145, 150, 200, 250)

  // (guards come before the choices of values: a choice whose body fails would be retried over the whole range)
  val open: Set[int] = builders.indices().filter(i => not(builders[i].done) and builders[i].reqs.length() < 8)
  action checks(pBad: int): bool = all { open != Set(), checksOn(pBad) }
  action checksOn(pBad: int): bool = {
    nondet b = open.oneOf()
    nondet inE = INFIELD.oneOf()
    nondet outE = OUTFIELD.oneOf()
    nondet rnd = 0.to(P - 1).oneOf()
    nondet rnd2 = 0.to(P - 1).oneOf()
    nondet hi = 0.to(2^32 - 1).oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ow = ODDWIDTHS.oneOf()
    nondet rbig = 0.to(R - 1).oneOf()
    nondet dice = 0.to(99).oneOf()
    nondet k = 0.to(9).oneOf()
    // (at most one bad value in a builder, so that every refusal has one cause)
    val bad = dice < pBad and allOk(builders[b])
    val lit = if (bad) hi % 2 == 0 else hi % 4 == 0
    val g = if (dice % 3 == 0) inE else if (dice % 3 == 1) rnd else (P - 1 - hi)
    val o = if (dice % 4 == 0) rbig else if (dice % 4 == 1) P + hi % (2^32 - 1) else outE
    if (k <= 4 and not(lit and k <= 2)) request(b, "field", 0, [if (bad) o else g], lit)
    else if (k > 4 and k <= 6) request(b, "pair", 0, if (bad) (if (dice % 2 == 0) [o, g] else [g, o]) else [g, rnd2], lit)
      else {
        // odd widths are refused as a whole by the commitment checker: ask for them rarely there
        val n = if (k == 9 and (mode(builders[b]) != "commit" or hi % 16 == 0)) ow else w
        val off = if (dice % 5 == 0) 0 else if (dice % 5 == 1) 1 else if (dice % 5 == 2) hi else (rbig % 2^n)
        request(b, "bits", n, [if (bad) (if (n >= 250 or dice % 6 == 5) R - 1 - hi else 2^n + off % 2^n) else if (dice % 4 == 0) 2^n - 1 else rbig % 2^n], lit)
      }
  }

  action lifecycle(padded: bool): bool = {
    nondet bi = 0.to(11).oneOf()
    val b = if (builders.length() == 0) 0 else bi % builders.length()
    nondet cap = Set("native", "commit", "none").oneOf()
    nondet pad = Set(0, 9000, 30000, FULLPAD).oneOf()
    nondet f = Set(true, false).oneOf()
    any {
      newBuilder(if (not(padded) and cap == "commit") "native" else cap, pad),
      setSwitch(f),
      all { builders.length() > 0, finish(b) },
    }
  }
  // without commitment builders (cheap: padding costs time), and with them
  action step = any { checks(12), checks(12), checks(12), lifecycle(false) }
  action stepCommit = {
    nondet pad = 0.to(9).oneOf()
    if (builders.length() == 0) newBuilder("commit", if (pad == 0) 0 else if (pad == 1) 9000 else if (pad == 2) 30000 else FULLPAD) else if (builders.length() == 1) newBuilder("none", 0)
    else any { checks(20), checks(20), all { builders[0].reqs.length() > 5, not(builders[0].done), finish(0) }, all { builders[1].reqs.length() > 1, finish(1) } }
  }

  // ---- model-level facts
  val soundVerdicts = builders.foldl(true, (a, b) => a and (not(b.done) or allOk(b) or verdict(b) == "reject"))
  val isolation = builders.foldl(true, (a, b) => a and b.reqs.length() <= 8)
  val inv = soundVerdicts and isolation
}
