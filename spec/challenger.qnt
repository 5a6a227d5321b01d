// The duplex challenger (Fiat-Shamir transcript).  Two challengers are alive at once; interleaved use of one must
// not influence the other.
module challenger {
  import field.* from "./field"
  import poseidon.* from "./poseidon"
  import duplex.* from "./duplex"
  import data.* from "./data"

  type Ev = { op: str, c: int, args: List[int], n: int, out: List[int] }
  var chs: List[Ch]
  var ev: Ev
  var observed: List[int]      // number of elements observed so far by each challenger
  var drawn: List[List[int]]   // challenges drawn so far by each challenger

  action init = all { chs' = [FRESH, FRESH], ev' = { op: "init", c: 0, args: [], n: 0, out: [] }, observed' = [0, 0], drawn' = [[], []] }

  action obs(op: str, c: int, args: List[int], n: int, d: Ch, k: int): bool = all {
    chs' = chs.replaceAt(c, d), ev' = { op: op, c: c, args: args, n: n, out: [] },
    observed' = observed.replaceAt(c, observed[c] + k), drawn' = drawn
  }
  action drawN(op: str, c: int, n: int): bool = {
    val r = draw(chs[c], n)
    all { chs' = chs.replaceAt(c, r.c), ev' = { op: op, c: c, args: [], n: n, out: r.out },
          observed' = observed, drawn' = drawn.replaceAt(c, drawn[c].concat(r.out)) }
  }

  action absorbs = {
    nondet c = 0.to(1).oneOf()
    nondet r = 0.to(P^24 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet n = 0.to(12).oneOf()
    nondet hi = 0.to(2^140).oneOf()
    nondet h1 = 0.to(R - 1).oneOf()
    nondet h2 = 0.to(R - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    val xs = elems(r, s, 24)
    val hs = [h1, h2, R - 1, xs[0]].slice(0, k + 1)
    any {
      obs("element", c, [xs[0]], 0, observe1(chs[c], xs[0]), 1),
      obs("element", c, [xs[0] + hi * P], 0, observe1(chs[c], xs[0]), 1),
      obs("elements", c, xs.slice(0, n), 0, observeAll(chs[c], xs.slice(0, n)), n),
      obs("hash", c, xs.slice(0, 4), 0, observeAll(chs[c], xs.slice(0, 4)), 4),
      obs("bnHash", c, [h1], 0, observeBn(chs[c], h1), 5),
      obs("bnHash", c, [xs[1]], 0, observeBn(chs[c], xs[1]), 5),
      obs("cap", c, hs, 0, observeCap(chs[c], hs), 5 * hs.length()),
      obs("ext", c, xs.slice(0, 2), 0, observeAll(chs[c], xs.slice(0, 2)), 2),
      obs("exts", c, xs.slice(0, 2 * n), 0, observeAll(chs[c], xs.slice(0, 2 * n)), 2 * n),
      // two batches of openings, the first of k elements
      obs("openings", c, xs.slice(0, 2 * n), imin(k, n), observeAll(chs[c], xs.slice(0, 2 * n)), 2 * n)
    }
  }
  action draws = {
    nondet c = 0.to(1).oneOf()
    nondet n = 0.to(20).oneOf()
    any { drawN("challenge", c, 1), drawN("challenge", c, 1), drawN("challenges", c, n), drawN("extChallenge", c, 2), drawN("getHash", c, 4) }
  }
  action step = any { absorbs, draws }

  // ---- model-level facts
  val buffers = chs.indices().forall(i => chs[i].inp.length() < 8 and chs[i].out.length() <= 8
    and (chs[i].inp.length() > 0 implies chs[i].out.length() == 0))
  val canonicalState = chs.indices().forall(i => chs[i].state.indices().forall(j => canonical(chs[i].state[j])))
  // challenges never repeat within one transcript (each duplexing yields fresh values)
  val fresh = drawn.indices().forall(i => drawn[i].indices().forall(j => drawn[i].indices().forall(k => j >= k or drawn[i][j] != drawn[i][k])))
  val inv = buffers and canonicalState and fresh
}
