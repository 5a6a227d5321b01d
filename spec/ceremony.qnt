// The trusted-setup ceremony as it is downloaded, checked and turned into a reference string. One participant after the
// other multiplies the secret of the ceremony by a secret of her own; a participant publishes the powers of the product
// (points), the product (ratio) and her own factor (link), in files with checksums. A run of the download walks from a
// starting point to the last participant; the environment decides what the files say and what the network does to them.
module ceremony {
  // id: which secret she used; parent: whose product she started from (0: the empty product); flaw: what is wrong
  // with what she published ("" = nothing)
  type Part = { id: int, parent: int, flaw: str }
  // what a download of one file does
  //   ok, refused (no answer), missing (an error page instead of the file), cut (broken off), short (ends early without
  //   an error), flipped (one byte wrong)
  type Fault = { who: int, file: int, how: str }
  type Run = { start: int, fault: Fault, out: str, parts: List[Part], points: int, files: int }

  pure val FLAWS: List[str] = ["ratio", "link", "unlinked", "point", "swap", "lastPoint", "offCurve", "wrongSubgroup", "nothing", "checksum", "fewer", "manyFiles"]
  pure val FAULTS: List[str] = ["refused", "missing", "cut", "short", "flipped"]
  pure val OUTS: List[str] = ["noDir", "isDir", "full"]
  pure val HONEST: List[Part] = [{ id: 1, parent: 0, flaw: "" }, { id: 2, parent: 1, flaw: "" }, { id: 3, parent: 2, flaw: "" },
    { id: 4, parent: 3, flaw: "" }, { id: 5, parent: 4, flaw: "" }, { id: 6, parent: 5, flaw: "" }]
  pure val MANIFEST: int = -1

  type Ev = { op: str, cfg: Run, result: str }
  var ev: Ev
  var parts: List[Part]
  var points: int
  var files: int
  // files already on disk from this or an earlier run, by (participant, file), and whether they are as published
  var cache: (int, int) -> bool
  // the current run
  var phase: str
  var cur: Run
  var at: int
  // what the output path holds: "nothing", "old" (from before) or "new"
  var output: str
  // which participant's parameters were written
  var written: int

  pure val NOFAULT: Fault = { who: -2, file: 0, how: "" }
  pure val NORUN: Run = { start: 0, fault: NOFAULT, out: "", parts: [], points: 0, files: 1 }
  pure def good(p: Part): bool = p.flaw == ""
  // how the starting contribution relates to those before it does not matter
  pure def goodStart(p: Part): bool = p.flaw == "" or p.flaw == "link"
  // does what a publishes start from what b published?
  pure def follows(a: Part, b: Part): bool = a.parent == b.id
  pure def supported(l: List[Part], n: int, start: int): bool =
    0 <= start and start + 1 < l.length() and n >= 60
  // every contribution from the starting point on is sound, and every one but the first follows its predecessor
  pure def chain(l: List[Part], start: int): bool =
    l.indices().forall(i => i >= start implies if (i > start and i > 0) good(l[i]) and follows(l[i], l[i - 1]) else goodStart(l[i]))

  action init = all {
    ev' = { op: "init", cfg: NORUN, result: "" },
    parts' = [], points' = 0, files' = 1, cache' = Map(), phase' = "idle", cur' = NORUN, at' = 0, output' = "nothing", written' = -1,
  }
  // a new ceremony; nothing is cached
  action publish = {
    nondet n = 1.to(6).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet who = 0.to(5).oneOf()
    nondet whom = 0.to(5).oneOf()
    nondet f = 0.to(11).oneOf()
    nondet pn = 0.to(11).oneOf()
    nondet fs = 1.to(3).oneOf()
    val pts = [64, 64, 64, 61, 70, 80, 64, 62, 61, 60, 5, 59][pn]
    val k = who % n
    val m = whom % n
    val honest = HONEST.slice(0, n)
    val l =
      // half of the ceremonies are in order
      if (kind < 3) honest
      // one contribution is flawed
      else if (kind < 5) honest.replaceAt(k, { ...honest[k], flaw: FLAWS[f] })
      // one starts from somebody else's
      else if (kind == 5) honest.replaceAt(k, { ...honest[k], parent: m })
      // two are exchanged
      else if (kind == 6) honest.replaceAt(k, honest[m]).replaceAt(m, honest[k])
      // one is left out
      else if (n > 1) honest.slice(0, k).concat(honest.slice(k + 1, n)) else honest
    all {
      parts' = l, points' = pts, files' = fs, cache' = Map(),
      ev' = { op: "publish", cfg: { ...NORUN, parts: l, points: pts, files: fs }, result: "" },
      phase' = "ready", cur' = cur, at' = at, output' = output, written' = written,
    }
  }
  action begin = {
    nondet s = 0.to(7).oneOf()
    nondet early = 0.to(3).oneOf()
    nondet faulty = 0.to(2).oneOf()
    nondet w = 0.to(6).oneOf()
    nondet fl = 0.to(2).oneOf()
    nondet h = 0.to(4).oneOf()
    nondet o = 0.to(14).oneOf()
    val st = if (early == 0) s - 1 else if (parts.length() == 0) 0 else s % parts.length()
    val r = { start: st, fault: if (faulty == 0) { who: w - 1, file: fl % files, how: FAULTS[h] } else NOFAULT,
      out: if (o < 3) OUTS[o] else "", parts: parts, points: points, files: files }
    all {
      cur' = r, phase' = "manifest", at' = 0,
      ev' = { op: "begin", cfg: r, result: "" },
      parts' = parts, points' = points, files' = files, cache' = cache, output' = output, written' = written,
    }
  }
  // the file as the run gets it: from the cache if it is there
  def cached(w: int, f: int): bool = cache.keys().contains((w, f))
  def hit(w: int, f: int): bool = cur.fault.who == w and cur.fault.file == f and cur.fault.how != ""
  // number of files of participant w (or of the manifest)
  def count(w: int): int = if (w == MANIFEST) 1 else files
  // files are fetched in order; the first one that is not as published ends the run
  def arrives(w: int, f: int): bool = if (cached(w, f)) cache.get((w, f)) else not(hit(w, f))
  def intact(w: int): bool = 0.to(2).forall(f => f < count(w) implies arrives(w, f))
  // a file is fetched if those before it were as published
  def reached(w: int, f: int): bool = 0.to(2).forall(g => g < f implies arrives(w, g))
  // what lies in the cache afterwards: a file that got no answer leaves nothing behind, a bad answer stays
  def fetched(w: int): (int, int) -> bool = {
    val gone = 0.to(2).filter(f => f < count(w) and reached(w, f) and not(cached(w, f)) and not(hit(w, f) and cur.fault.how == "refused"))
    val all_ = cache.keys().union(gone.map(f => (w, f)))
    all_.mapBy(k => if (cache.keys().contains(k)) cache.get(k) else not(hit(k._1, k._2)))
  }
  action stay = all { parts' = parts, points' = points, files' = files, cur' = cur }
  action end(result: str): bool = all {
    stay, cache' = cache, at' = at,
    phase' = if (result == "written") "done" else "failed",
    ev' = { op: "end", cfg: cur, result: result },
    output' = if (result == "written") "new" else output,
    written' = if (result == "written") at else written,
  }
  action proceed(w: int, next_: str, fine: bool): bool = all {
    stay, cache' = fetched(w),
    phase' = if (fine) next_ else "failed",
    ev' = { op: if (fine) "fetch" else "end", cfg: cur, result: if (fine) "" else "failed" },
    at' = w, output' = output, written' = written,
  }
  action manifest = proceed(MANIFEST, "first", intact(MANIFEST))
  action first =
    if (0 <= cur.start and cur.start < parts.length())
      proceed(cur.start, "next", cur.start + 1 < parts.length() and intact(cur.start) and goodStart(parts[cur.start]))
    else end("failed")
  action another = proceed(at + 1, "next", intact(at + 1) and good(parts[at + 1]) and follows(parts[at + 1], parts[at]))
  action finish = end(if (points < 60 or cur.out != "") "failed" else "written")
  action step =
    if (phase == "idle" or (phase == "done" or phase == "failed") and parts.length() == 0) publish
    else if (phase == "ready") (if (parts.length() > 0) begin else publish)
    else if (phase == "done" or phase == "failed") any { publish, begin }
    else if (phase == "manifest") manifest
    else if (phase == "first") first
    else if (at + 1 < parts.length()) another
    else finish

  // nothing is written except the parameters of the last participant at the end of a sound chain
  val sound = ev.op == "end" and ev.result == "written" implies and {
    chain(parts, cur.start), supported(parts, points, cur.start), written == parts.length() - 1,
    parts.indices().forall(w => w >= cur.start implies intact(w)), cur.out == "",
  }
  // and a sound chain whose files arrive is written
  val complete = ev.op == "end" and ev.result == "failed" implies or {
    not(chain(parts, cur.start)), not(supported(parts, points, cur.start)), cur.out != "",
    not(intact(MANIFEST)), parts.indices().exists(w => w >= cur.start and not(intact(w))),
  }
  // what is on disk is from a written run
  val held = output == "new" implies written >= 0
  val inv = sound and complete and held
}
