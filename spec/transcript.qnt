// The Fiat-Shamir protocol of a proof: the prover sends its messages one at a time, the verifier answers with
// challenges. Two runs go on side by side; they receive the same messages except that, from some step on, one element
// of one message differs. Challenges drawn before that step agree in both runs, challenges drawn after it all differ.
module transcript {
  import field.* from "./field"
  import poseidon.* from "./poseidon"
  import duplex.* from "./duplex"
  import data.* from "./data"

  // shape of the proof: challenges, hashes per cap, openings at zeta (constants, sigmas, wires, zs, partials, quotient)
  // and next, folding rounds, coefficients of the final polynomial, queries
  type Shape = { nch: int, cap: int, open: List[int], rounds: int, fin: int, queries: int, pub: int }
  // a: what the first run got / answered, b: the second run
  type TEv = { op: str, a: List[int], b: List[int], outA: List[int], outB: List[int] }
  var shape: Shape
  var tev: TEv
  var ta: Ch
  var tb: Ch
  var phase: int               // index into the script
  var diverged: int            // phase at which the runs received different messages, -1 while equal

  // the order of the protocol
  pure def script(s: Shape): List[str] =
    ["digest", "public", "wires", "betas", "gammas", "zs", "alphas", "quotient", "zeta", "openings", "friAlpha"]
      .concat(range(0, 2 * s.rounds).foldl([], (acc, i) => acc.append(if (i % 2 == 0) "commit" else "beta")))
      .concat(["final", "pow", "powResponse", "queries"])
  pure val DRAWS: Set[str] = Set("betas", "gammas", "alphas", "zeta", "friAlpha", "beta", "powResponse", "queries")
  pure def drawCount(s: Shape, op: str): int =
    if (op == "betas" or op == "gammas" or op == "alphas") s.nch
    else if (op == "powResponse") 1
    else if (op == "queries") s.queries
    else 2
  pure val S0: Shape = { nch: 0, cap: 0, open: [0, 0, 0, 0, 0, 0, 0], rounds: 0, fin: 0, queries: 0, pub: 0 }
  pure def nOpenings(s: Shape): int = s.open.foldl(0, (x, y) => x + y)

  action tinit = all {
    shape' = S0, tev' = { op: "init", a: [], b: [], outA: [], outB: [] }, ta' = FRESH, tb' = FRESH, phase' = 0 - 1, diverged' = 0 - 1 }

  // begin with a shape
  action begin = all {
    phase == 0 - 1,
    nondet x = 0.to(2^60 - 1).oneOf()
    val nch = 1 + x % 4
    all {
      shape' = { nch: nch, cap: [16, 16, 16, 1, 2, 4][(x / 4) % 6],
        open: [(x / 64) % 6, (x / 512) % 7, (x / 4096) % 9, nch, nch * ((x / 2^20) % 4), nch * (1 + (x / 2^24) % 4), nch],
        rounds: (x / 2^28) % 4, fin: 2^((x / 2^32) % 4), queries: 1 + (x / 2^36) % 12, pub: (x / 2^42) % 20 },
      tev' = { op: "begin", a: [], b: [], outA: [], outB: [] }, ta' = FRESH, tb' = FRESH, phase' = 0, diverged' = 0 - 1
    }
  }
  val now = script(shape)[phase]
  val running = phase >= 0 and phase < script(shape).length()

  pure def msgLen(s: Shape, op: str): int =
    if (op == "openings") 2 * nOpenings(s)
    else if (op == "final") 2 * s.fin
    else if (op == "pow") 1
    else if (op == "public") s.pub
    else 0
  // the prover sends field elements
  pure def absorbs1(op: str, c: Ch, m: List[int]): Ch =
    if (op == "public") observeAll(c, glHash(m))
    else observeAll(c, m)
  pure def move(l: List[int], at: int, d: int): List[int] =
    if (l.length() == 0) l else l.replaceAt(at % l.length(), (l[at % l.length()] + d) % P)
  action sendElements = all {
    running and Set("public", "openings", "final", "pow").contains(now),
    nondet r = 0.to(P^120 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet dv = 0.to(5).oneOf()
    nondet at = 0.to(10000).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    val m = elems(r, s, msgLen(shape, now))
    val m2 = if (diverged < 0 and dv == 0) move(m, at, d) else m
    all {
      ta' = absorbs1(now, ta, m), tb' = absorbs1(now, tb, m2),
      tev' = { op: now, a: m, b: m2, outA: if (now == "public") glHash(m) else [], outB: if (now == "public") glHash(m2) else [] },
      diverged' = if (m != m2) phase else diverged, phase' = phase + 1, shape' = shape
    }
  }
  // the prover sends hashes
  action sendHashes = all {
    running and Set("digest", "wires", "zs", "quotient", "commit").contains(now),
    nondet r = 0.to(R^16 - 1).oneOf()
    nondet small = 0.to(3).oneOf()
    nondet dv = 0.to(5).oneOf()
    nondet at = 0.to(10000).oneOf()
    nondet d = 1.to(R - 1).oneOf()
    val n = if (now == "digest") 1 else shape.cap
    val m = range(0, n).foldl([], (acc, i) => acc.append(if (small == 0) (r / R^i) % 2^64 else (r / R^i) % R))
    val i = at % n
    val m2 = if (diverged < 0 and dv == 0) m.replaceAt(i, (m[i] + d) % R) else m
    all {
      ta' = observeCap(ta, m), tb' = observeCap(tb, m2), tev' = { op: now, a: m, b: m2, outA: [], outB: [] },
      diverged' = if (m != m2) phase else diverged, phase' = phase + 1, shape' = shape
    }
  }
  action answer = all {
    running and DRAWS.contains(now),
    val n = drawCount(shape, now)
    val x = draw(ta, n)
    val y = draw(tb, n)
    all {
      ta' = x.c, tb' = y.c, tev' = { op: now, a: [], b: [], outA: x.out, outB: y.out },
      diverged' = diverged, phase' = phase + 1, shape' = shape
    }
  }
  action finish = all {
    phase >= 0, not(running),
    ta' = FRESH, tb' = FRESH, tev' = { op: "finish", a: [], b: [], outA: [], outB: [] }, diverged' = 0 - 1, phase' = 0 - 1, shape' = shape
  }
  action tstep = any { begin, sendElements, sendHashes, answer, finish }

  // ---- model-level facts
  val binding = tev.outA.length() > 0 implies
    (if (diverged < 0) tev.outA == tev.outB
     else tev.op == "public" or tev.outA.indices().forall(i => tev.outA[i] != tev.outB[i]))
  val canonicalOut = tev.outA.indices().forall(i => canonical(tev.outA[i]))
  val tinv = binding and canonicalOut
}
