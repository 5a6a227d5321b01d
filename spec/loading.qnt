// Circuit descriptions, keys and proofs on disk. A file is a list of places, each holding a token; loading yields the
// meaning of every token at its place, or refuses the whole file. What has been loaded never changes afterwards.
module loading {
  import field.* from "./field"

  type Place = { sec: str, a: int, b: int, i: int, c: int }
  // form: how the value v is written down
  type Tok = { form: str, v: int }
  type Cell = { at: Place, tok: Tok }
  type Doc = { kind: str, dims: List[int], cells: List[Cell], hiding: bool, style: int, cut: int }
  type Val = { at: Place, v: int }
  // verdict: "loaded" (then vals says what), "refused", or "unsettled" (loading may refuse; if it does not, vals holds)
  type Res = { verdict: str, vals: List[Val] }

  pure def place(sec: str, a: int, b: int, i: int, c: int): Place = { sec: sec, a: a, b: b, i: i, c: c }

  // ---- what the places of a file are --------------------------------------------------------------------------
  pure val SCALARS: List[str] = ["numWires", "numRoutedWires", "numConstants", "securityBits", "numChallenges", "maxQuotientDegreeFactor",
    "rateBits", "capHeight", "powBits", "queryRounds", "friRateBits", "friCapHeight", "friPowBits", "friQueryRounds", "degreeBits",
    "quotientDegreeFactor", "numGateConstraints", "allConstants", "numPublicInputs", "numPartialProducts"]
  pure val FLAGS: List[str] = ["useBaseArithmeticGate", "zeroKnowledge"]
  pure val LISTS: List[str] = ["arities", "gates", "selectorIndices", "groupStart", "groupEnd", "kis"]

  pure def upto(n: int): List[int] = range(0, n)
  pure def line(sec: str, a: int, b: int, n: int): List[Place] = upto(n).foldl([], (l, i) => l.append(place(sec, a, b, i, 0)))
  pure def pairs(sec: str, a: int, b: int, n: int): List[Place] =
    upto(2 * n).foldl([], (l, k) => l.append(place(sec, a, b, k / 2, k % 2)))

  // common data: dims = lengths of arities, gates, indices, groups, kis
  pure def commonPlaces(d: List[int]): List[Place] =
    SCALARS.foldl([], (l, s) => l.append(place(s, 0, 0, 0, 0)))
      .concat(FLAGS.foldl([], (l, s) => l.append(place(s, 0, 0, 0, 0))))
      .concat(line("arities", 0, 0, d[0])).concat(line("gates", 0, 0, d[1])).concat(line("selectorIndices", 0, 0, d[2]))
      .concat(line("groupStart", 0, 0, d[3])).concat(line("groupEnd", 0, 0, d[3])).concat(line("kis", 0, 0, d[4]))
  // key: dims = size of the cap
  pure def keyPlaces(d: List[int]): List[Place] = line("cap", 0, 0, d[0]).append(place("digest", 0, 0, 0, 0))
  // proof: dims = public inputs, seven openings, three caps, commitments x cap size, final polynomial, queries x
  // (trees x (leaf, siblings)), steps x (evaluations, siblings): nested lists have one length per level plus a slope
  // (list k of a level is k longer), so that no two lists need be equally long
  pure def proofPlaces(d: List[int]): List[Place] = {
    val flat = line("pub", 0, 0, d[0])
      .concat(upto(7).foldl([], (l, a) => l.concat(pairs("open", a, 0, d[1 + a]))))
      .concat(upto(3).foldl([], (l, a) => l.concat(line("cap", a + 1, 0, d[8 + a]))))
      .concat(upto(d[11]).foldl([], (l, a) => l.concat(line("ccap", a, 0, d[12] + a))))
      .concat(pairs("fin", 0, 0, d[13])).append(place("witness", 0, 0, 0, 0))
    upto(d[14]).foldl(flat, (l, q) =>
      upto(d[18]).foldl(
        upto(d[15]).foldl(l, (m, b) => m.concat(line("leaf", q, b, d[16] + b)).concat(line("sib", q, b, d[17] + q))),
        (m, b) => m.concat(pairs("eval", q, b, d[19] + b)).concat(line("stepSib", q, b, d[20] + q))))
  }
  pure def placesOf(kind: str, d: List[int]): List[Place] =
    if (kind == "common") commonPlaces(d) else if (kind == "key") keyPlaces(d) else proofPlaces(d)

  pure val HASHES: Set[str] = Set("cap", "ccap", "sib", "stepSib", "digest")
  pure def classOf(p: Place): str =
    if (HASHES.contains(p.sec)) "hash" else if (p.sec == "gates") "name"
    else if (p.sec == "useBaseArithmeticGate" or p.sec == "zeroKnowledge") "flag" else "word"

  // ---- what tokens mean ---------------------------------------------------------------------------------------
  pure val HASHBAD: List[str] = ["minus", "plus", "hex", "empty", "space", "spaceAfter", "trailing", "fraction", "exponent", "underscore",
    "letters", "unquoted", "flag", "tooLarge", "tooLarge", "modulus"]
  pure val WORDBAD: List[str] = ["minus", "fraction", "quoted", "flag", "tooLarge", "list", "letters"]
  pure def understood(p: Place, t: Tok): bool =
    t.form == "plain" and (if (classOf(p) == "hash") 0 <= t.v and t.v < R
      else if (classOf(p) == "word") 0 <= t.v and t.v < 2^64
      else if (classOf(p) == "flag") t.v == 0 or t.v == 1 else t.v >= 0)
  pure def isOn(d: Doc, sec: str): bool = d.cells.foldl(false, (r, x) => r or (x.at.sec == sec and x.tok.v == 1))
  pure def load(d: Doc): Res = {
    val vals = d.cells.foldl([], (l, x) => l.append({ at: x.at, v: x.tok.v }))
    if (d.cut > 0 or d.hiding or d.cells.foldl(false, (r, x) => r or not(understood(x.at, x.tok)))) { verdict: "refused", vals: [] }
    // Plonky2 never writes zero knowledge without hiding
    else if (d.kind == "common" and isOn(d, "zeroKnowledge")) { verdict: "unsettled", vals: vals }
    else { verdict: "loaded", vals: vals }
  }

  // ---- behaviours -----------------------------------------------------------------------------------------------
  pure val EDGE: List[int] = [0, 1, 2^16, 2^31, 2^32 - 1, 2^32, 2^53 - 1, 2^53, 2^53 + 1, 2^63 - 1, 2^63, P - 1, P, P + 1, 2^64 - 2, 2^64 - 1]
  pure val EDGEH: List[int] = [0, 1, P, 2^53 + 1, 2^64 - 1, 2^64, 2^128 + 1, 2^253, 10^75, 10^76 + 1, R / 2, R - 2, R - 1]
  pure def valueFor(p: Place, k: int, rnd: int, edgy: int): int = {
    val pick = (rnd / (k + 3)) % 97
    val mixed = rnd * (2 * k + 1) + k * k + 1
    val cl = classOf(p)
    if (cl == "hash") (if (pick % 4 < edgy) EDGEH[(pick + k) % EDGEH.length()] else mixed % R)
    else if (cl == "word") (if (pick % 4 < edgy) EDGE[(pick + k) % EDGE.length()] else mixed % 2^64)
    else if (cl == "flag") mixed / 7 % 2
    else mixed % 1000
  }
  pure def dimsFor(kind: str, r: int, small: bool): List[int] = {
    val m = if (small) 2 else 4
    if (kind == "common") [r % 4, r / 4 % 6, r / 32 % 6, r / 256 % 4, r / 1024 % 9]
    else if (kind == "key") [r % 20]
    else upto(21).foldl([], (l, k) => l.append(r / 5^k % m + (if (k == 14) 1 else 0)))
  }
  pure val KINDS: List[str] = ["common", "key", "proof"]
  pure def docOf(kind: str, dims: List[int], rnd: int, edgy: int, style: int): Doc = {
    val ps = placesOf(kind, dims)
    { kind: kind, dims: dims, hiding: false, style: style, cut: 0,
      cells: upto(ps.length()).foldl([], (l, k) => l.append({ at: ps[k], tok: { form: "plain", v: valueFor(ps[k], k, rnd, edgy) } })) }
  }

  type Ev = { op: str, doc: Doc, res: Res, slot: int }
  var ev: Ev
  // the files, and what was loaded from them, when
  var disk: List[Doc]
  var seen: List[Res]
  pure val NODOC: Doc = { kind: "key", dims: [0], cells: [{ at: place("digest", 0, 0, 0, 0), tok: { form: "plain", v: 7 } }], hiding: false, style: 0, cut: 0 }
  pure val NONE: Res = { verdict: "refused", vals: [] }
  action init = all {
    ev' = { op: "init", doc: NODOC, res: NONE, slot: 0 },
    disk' = [NODOC, NODOC, NODOC],
    seen' = [],
  }
  action write = {
    nondet s = 0.to(2).oneOf()
    nondet k = 0.to(2).oneOf()
    nondet d = 0.to(5^30 - 1).oneOf()
    nondet rnd = 0.to(R * R).oneOf()
    nondet edgy = 0.to(4).oneOf()
    nondet style = 0.to(63).oneOf()
    nondet small = oneOf(Set(true, false))
    val doc = docOf(KINDS[k], dimsFor(KINDS[k], d, small), rnd, edgy, style)
    all { disk' = disk.replaceAt(s, doc), ev' = { op: "write", doc: doc, res: NONE, slot: s }, seen' = seen }
  }
  pure def spoil(d: Doc, at: int, f: int, rnd: int): Doc = {
    val k = at % d.cells.length()
    val x = d.cells[k]
    val cl = classOf(x.at)
    val form = if (cl == "hash") HASHBAD[f % HASHBAD.length()] else if (cl == "word") WORDBAD[f % WORDBAD.length()] else "list"
    val v = if (form == "modulus") x.tok.v + R
      else if (form == "tooLarge") (if (cl == "hash") R * (1 + rnd % 4) + rnd % 2^64 else 2^64 * (1 + rnd % 9) + rnd % 3)
      else if (x.tok.v == 0) 5 else x.tok.v
    val t = if (form == "modulus" or form == "tooLarge") { form: "plain", v: v } else { form: form, v: v }
    { ...d, cells: d.cells.replaceAt(k, { at: x.at, tok: t }) }
  }
  // one token of a file is written wrongly
  action damage = {
    nondet s = 0.to(2).oneOf()
    nondet at = 0.to(100000).oneOf()
    nondet f = 0.to(1000).oneOf()
    nondet rnd = 0.to(2^70).oneOf()
    val doc = spoil(disk[s], at, f, rnd)
    all { disk' = disk.replaceAt(s, doc), ev' = { op: "damage", doc: doc, res: NONE, slot: s }, seen' = seen }
  }
  action cutOff = {
    nondet s = 0.to(2).oneOf()
    nondet n = 1.to(1000).oneOf()
    val doc = { ...disk[s], cut: n }
    all { disk' = disk.replaceAt(s, doc), ev' = { op: "cut", doc: doc, res: NONE, slot: s }, seen' = seen }
  }
  action hide = {
    nondet s = 0.to(2).oneOf()
    val doc = if (disk[s].kind == "common") { ...disk[s], hiding: true } else disk[s]
    all { disk' = disk.replaceAt(s, doc), ev' = { op: "hide", doc: doc, res: NONE, slot: s }, seen' = seen }
  }
  action read = {
    nondet s = 0.to(2).oneOf()
    val r = load(disk[s])
    all { disk' = disk, ev' = { op: "read", doc: disk[s], res: r, slot: s }, seen' = seen.append(r) }
  }
  action step = any { write, write, damage, read, read, read, read, cutOff, hide }

  // a loaded file says what its tokens say, each place once
  val faithful = ev.op == "read" and ev.res.verdict != "refused" implies
    ev.res.vals.length() == ev.doc.cells.length()
      and ev.res.vals.indices().forall(k => and {
        ev.doc.cells[k].tok.form == "plain",
        ev.res.vals[k].at == ev.doc.cells[k].at,
        ev.res.vals[k].v == ev.doc.cells[k].tok.v,
        classOf(ev.res.vals[k].at) == "hash" implies ev.res.vals[k].v < R,
      })
      and ev.res.vals.indices().map(k => ev.res.vals[k].at).size() == ev.res.vals.length()
  // a spoiled token is never loaded
  val refusing = ev.op == "damage" implies load(ev.doc).verdict == "refused"
  val inv = faithful and refusing
}
