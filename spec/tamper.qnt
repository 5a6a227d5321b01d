// Behaviours of the verifier under a man in the middle: a proof (made by an honest or dishonest prover) is picked, then
// altered one place at a time, restored, and judged after every alteration.
module tamper {
  import field.* from "./field"
  import plonk.* from "./plonk"
  import fri.* from "./fri"
  import verifier.* from "./verifier"
  import pdata.* from "./pdata"

  var ev: { op: str, n: int, id: int, craft: str, edits: List[Edit], verdict: str, same_: bool }

  // ---- one edit of a list
  pure def onInts(l: List[int], e: Edit, m: int): List[int] =
    if (e.op == "move") l.replaceAt(e.i, (l[e.i] + e.d) % m)
    else if (e.op == "over") l.replaceAt(e.i, l[e.i] + e.d * P)
    else if (e.op == "swap") l.replaceAt(e.i, l[e.j]).replaceAt(e.j, l[e.i])
    else if (e.op == "drop") l.slice(0, e.i).concat(l.slice(e.i + 1, l.length()))
    else if (e.op == "again") l.append(l[e.i])
    else l.append(0)
  pure def onExts(l: List[Ext], e: Edit): List[Ext] =
    if (e.op == "move") l.replaceAt(e.i, if (e.c == 0) ((l[e.i]._1 + e.d) % P, l[e.i]._2) else (l[e.i]._1, (l[e.i]._2 + e.d) % P))
    else if (e.op == "over") l.replaceAt(e.i, if (e.c == 0) (l[e.i]._1 + e.d * P, l[e.i]._2) else (l[e.i]._1, l[e.i]._2 + e.d * P))
    else if (e.op == "swap") (if (e.i == e.j) l.replaceAt(e.i, (l[e.i]._2, l[e.i]._1)) else l.replaceAt(e.i, l[e.j]).replaceAt(e.j, l[e.i]))
    else if (e.op == "drop") l.slice(0, e.i).concat(l.slice(e.i + 1, l.length()))
    else if (e.op == "again") l.append(l[e.i])
    else l.append(E0)
  // edits that move whole sub-structures use op drop / again / swap
  pure def put1(v: Inst, pf: Proof): Inst = { ...v, pf: pf }
  pure def openList(o: Open, a: int): List[Ext] =
    if (a == 0) o.constants else if (a == 1) o.sigmas else if (a == 2) o.wires else if (a == 3) o.zs
    else if (a == 4) o.zsNext else if (a == 5) o.partials else o.quotient
  pure def openWith(o: Open, a: int, l: List[Ext]): Open =
    if (a == 0) { ...o, constants: l } else if (a == 1) { ...o, sigmas: l } else if (a == 2) { ...o, wires: l }
    else if (a == 3) { ...o, zs: l } else if (a == 4) { ...o, zsNext: l } else if (a == 5) { ...o, partials: l } else { ...o, quotient: l }
  pure def withQuery(v: Inst, a: int, q: Query): Inst = put1(v, { ...v.pf, queries: v.pf.queries.replaceAt(a, q) })
  pure def withStep(v: Inst, a: int, b: int, s: Step): Inst = withQuery(v, a, { ...v.pf.queries[a], steps: v.pf.queries[a].steps.replaceAt(b, s) })

  pure def applyEdit(v: Inst, e: Edit): Inst =
    if (e.sec == "digest") { ...v, digest: (v.digest + e.d) % R }
    else if (e.sec == "witness") { ...v, witness: if (e.op == "over") v.witness + e.d * P else (v.witness + e.d) % P }
    else if (e.sec == "pub") { ...v, pub: onInts(v.pub, e, P) }
    else if (e.sec == "open") { ...v, open: openWith(v.open, e.a, onExts(openList(v.open, e.a), e)) }
    else if (e.sec == "cap") put1(v, { ...v.pf, caps: v.pf.caps.replaceAt(e.a, onInts(v.pf.caps[e.a], e, R)) })
    else if (e.sec == "ccap") put1(v, { ...v.pf, ccaps: v.pf.ccaps.replaceAt(e.a, onInts(v.pf.ccaps[e.a], e, R)) })
    else if (e.sec == "fin") put1(v, { ...v.pf, fin: onExts(v.pf.fin, e) })
    else if (e.sec == "leaf") {
      pure val q = v.pf.queries[e.a]
      withQuery(v, e.a, { ...q, leaves: q.leaves.replaceAt(e.b, onInts(q.leaves[e.b], e, P)) })
    } else if (e.sec == "sib") {
      pure val q = v.pf.queries[e.a]
      withQuery(v, e.a, { ...q, sib: q.sib.replaceAt(e.b, onInts(q.sib[e.b], e, R)) })
    } else if (e.sec == "eval") {
      pure val s = v.pf.queries[e.a].steps[e.b]
      withStep(v, e.a, e.b, { ...s, evals: onExts(s.evals, e) })
    } else if (e.sec == "stepSib") {
      pure val s = v.pf.queries[e.a].steps[e.b]
      withStep(v, e.a, e.b, { ...s, sib: onInts(s.sib, e, R) })
    } else if (e.sec == "queries") {
      pure val l = v.pf.queries
      put1(v, { ...v.pf, queries: if (e.op == "drop") l.slice(0, e.i).concat(l.slice(e.i + 1, l.length()))
        else if (e.op == "swap") l.replaceAt(e.i, l[e.j]).replaceAt(e.j, l[e.i]) else l.append(l[e.i]) })
    } else if (e.sec == "trees") {
      pure val q = v.pf.queries[e.a]
      withQuery(v, e.a,
        if (e.op == "drop") { ...q, leaves: q.leaves.slice(0, e.i).concat(q.leaves.slice(e.i + 1, 4)), sib: q.sib.slice(0, e.i).concat(q.sib.slice(e.i + 1, 4)) }
        else if (e.op == "swap") { ...q, leaves: q.leaves.replaceAt(e.i, q.leaves[e.j]).replaceAt(e.j, q.leaves[e.i]), sib: q.sib.replaceAt(e.i, q.sib[e.j]).replaceAt(e.j, q.sib[e.i]) }
        else { ...q, leaves: q.leaves.append(q.leaves[e.i]), sib: q.sib.append(q.sib[e.i]) })
    } else if (e.sec == "steps") {
      pure val q = v.pf.queries[e.a]
      withQuery(v, e.a, { ...q, steps: if (e.op == "drop") q.steps.slice(0, e.i).concat(q.steps.slice(e.i + 1, q.steps.length())) 
        else if (e.op == "swap") q.steps.replaceAt(e.i, q.steps[e.j]).replaceAt(e.j, q.steps[e.i]) else q.steps.append(q.steps[e.i]) })
    } else if (e.sec == "ccaps") {
      pure val l = v.pf.ccaps
      put1(v, { ...v.pf, ccaps: if (e.op == "drop") l.slice(0, e.i).concat(l.slice(e.i + 1, l.length()))
        else if (e.op == "swap") l.replaceAt(e.i, l[e.j]).replaceAt(e.j, l[e.i]) else l.append(l[e.i]) })
    } else v
  pure def applyAll(v: Inst, es: List[Edit]): Inst = es.foldl(v, (w, e) => applyEdit(w, e))

  // ---- choosing an edit that exists: length of the list the edit addresses
  pure val SECS: List[str] = ["digest", "witness", "pub", "open", "open", "open", "cap", "cap", "ccap", "fin", "leaf", "leaf", "sib",
    "eval", "eval", "stepSib", "queries", "trees", "steps", "ccaps"]
  pure val GLSECS: List[str] = ["witness", "open", "open", "fin", "leaf", "leaf", "leaf", "eval", "eval"]
  pure val SHAPES: List[str] = ["pub", "open", "open", "open", "cap", "ccap", "fin", "leaf", "sib", "eval", "stepSib", "queries", "trees", "steps", "ccaps"]
  pure val OPS: List[str] = ["move", "move", "move", "over", "over", "swap", "swap", "drop", "again", "more"]
  // extra parameters are taken modulo what is there; an edit without target turns into one of the witness
  pure def aim(v: Inst, sec: str, op: str, a: int, b: int, i: int, j: int, d: int): Edit = {
    pure val nq = v.pf.queries.length()
    pure val qa = if (nq == 0) 0 else a % nq
    pure val steps = if (nq == 0) 0 else v.pf.queries[qa].steps.length()
    pure val trees = if (nq == 0) 0 else v.pf.queries[qa].leaves.length()
    pure val a1 =
      if (sec == "open") a % 7 else if (sec == "cap") a % 4
      else if (sec == "ccap") (if (v.pf.ccaps.length() == 0) 0 else a % v.pf.ccaps.length())
      else qa
    pure val b1 =
      if (sec == "leaf" or sec == "sib") (if (trees == 0) 0 else b % trees)
      else if (steps == 0) 0 else b % steps
    pure val n =
      if (sec == "digest" or sec == "witness") 1
      else if (sec == "pub") v.pub.length()
      else if (sec == "open") openList(v.open, a1).length()
      else if (sec == "cap") v.pf.caps[a1].length()
      else if (sec == "ccap") (if (v.pf.ccaps.length() == 0) 0 else v.pf.ccaps[a1].length())
      else if (sec == "fin") v.pf.fin.length()
      else if (sec == "leaf") (if (trees == 0) 0 else v.pf.queries[a1].leaves[b1].length())
      else if (sec == "sib") (if (trees == 0) 0 else v.pf.queries[a1].sib[b1].length())
      else if (sec == "eval") (if (steps == 0) 0 else v.pf.queries[a1].steps[b1].evals.length())
      else if (sec == "stepSib") (if (steps == 0) 0 else v.pf.queries[a1].steps[b1].sib.length())
      else if (sec == "queries") nq
      else if (sec == "trees") trees
      else if (sec == "steps") steps
      else v.pf.ccaps.length()
    pure val hash = Set("digest", "cap", "ccap", "sib", "stepSib").contains(sec)
    pure val whole = Set("queries", "trees", "steps", "ccaps").contains(sec)
    pure val op1 =
      if (sec == "digest") "move"
      else if (sec == "witness") (if (op == "over") "over" else "move")
      else if (whole) (if (op == "drop" or op == "swap") op else "again")
      else if ((hash or sec == "pub") and op == "over") "move"
      else op
    if (n == 0) { sec: "witness", a: 0, b: 0, i: 0, j: 0, c: 0, op: "over", d: d }
    else { sec: sec, a: a1, b: b1, i: i % n, j: j % n, c: (i / n) % 2, op: op1, d: d }
  }

  action init = ev' = { op: "init", n: 0, id: 0 - 1, craft: "", edits: [], verdict: "", same_: true }
  // a proof arrives as its prover made it
  action choose = {
    nondet n = 0.to(INSTANCES.length() - 1).oneOf()
    val v = INSTANCES[n]
    ev' = { op: "choose", n: n, id: v.id, craft: v.craft, edits: v.edits, verdict: verdict(applyAll(v, v.edits)), same_: true }
  }
  // all proofs one after the other
  action oneByOne = {
    val n = if (ev.id < 0) 0 else (ev.n + 1) % INSTANCES.length()
    val v = INSTANCES[n]
    ev' = { op: "choose", n: n, id: v.id, craft: v.craft, edits: v.edits, verdict: verdict(applyAll(v, v.edits)), same_: true }
  }
  // one place is altered (rarely on top of earlier alterations)
  action alterWith(secs: List[str], ops: List[str]): bool = {
    nondet n0 = 0.to(INSTANCES.length() - 1).oneOf()
    nondet sec = 0.to(secs.length() - 1).oneOf()
    nondet op = 0.to(ops.length() - 1).oneOf()
    nondet a = 0.to(10000).oneOf()
    nondet b = 0.to(10000).oneOf()
    nondet i = 0.to(100000).oneOf()
    nondet j = 0.to(100000).oneOf()
    nondet much = 0.to(4).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    nondet big = 1.to(2^180).oneOf()
    nondet keep = 0.to(5).oneOf()
    val n = if (ev.id < 0) n0 else ev.n
    val es = if (ev.id >= 0 and keep == 0 and ev.edits.length() < 4) ev.edits else INSTANCES[n].edits
    val v = applyAll(INSTANCES[n], es)
    val e = aim(v, secs[sec], ops[op], a, b, i, j, 1)
    val amount = if (e.op == "over" and much > 2) big else if (much == 0) 1 else if (much == 1) P - 1 else d
    val f = { ...e, d: amount }
    val w = applyEdit(v, f)
    ev' = { op: "alter", n: n, id: INSTANCES[n].id, craft: INSTANCES[n].craft, edits: es.append(f), verdict: verdict(w), same_: w == INSTANCES[n] }
  }
  action step = any { choose, alterWith(SECS, OPS), alterWith(SECS, OPS), alterWith(SECS, OPS) }
  action stepMove = any { choose, alterWith(SECS, ["move"]), alterWith(SECS, ["move"]), alterWith(SECS, ["swap"]) }
  action stepOver = any { choose, alterWith(GLSECS, ["over"]), alterWith(GLSECS, ["over"]), alterWith(GLSECS, ["over"]) }
  action stepShape = any { choose, alterWith(SHAPES, ["drop"]), alterWith(SHAPES, ["again"]), alterWith(SHAPES, ["more"]) }

  // ---- model-level facts
  // an honest prover convinces the verifier
  val convinced = (ev.craft == "" and ev.same_) implies ev.verdict == ""
  // nobody else's changes go unnoticed, with two exceptions: another proof-of-work witness may happen to do as well, and
  // an entry of the preprocessed cap to which no query leads is never looked at (that cap is not part of the transcript)
  pure def queried(v: Inst): Set[int] = {
    pure val c = challenges(v)
    c.fri.xs.indices().map(i => c.fri.xs[i] % 2^(v.cd.degreeBits + v.rate) / 2^(v.cd.degreeBits + v.rate - 4))
  }
  pure def mustShow(v: Inst, e: Edit): bool =
    if (e.sec == "witness") e.op == "over"
    else if (e.sec == "cap" and e.a == 0) not(Set("move", "swap").contains(e.op)) or
      (e.op == "move" and queried(v).contains(e.i)) or (e.op == "swap" and (queried(v).contains(e.i) or queried(v).contains(e.j)))
    else true
  val noticed = (ev.craft == "" and not(ev.same_) and ev.edits.indices().exists(k => mustShow(INSTANCES[ev.n], ev.edits[k]))
    and ev.edits.length() == 1) implies ev.verdict != ""
  val noticedAll = (ev.craft == "" and not(ev.same_) and ev.edits.indices().forall(k => ev.edits[k].sec != "witness" and not(ev.edits[k].sec == "cap" and ev.edits[k].a == 0)))
    implies ev.verdict != ""
  // encodings that are not canonical are refused as such, whatever else the prover did
  val canonicalOnly = ev.edits.indices().exists(k => ev.edits[k].op == "over") implies ev.verdict == "range" or ev.verdict == "shape"
  val inv = convinced and noticed and noticedAll and canonicalOnly
}
