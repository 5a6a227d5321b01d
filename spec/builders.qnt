// Several constraint builders at work: each runs a program over its own arithmetic chip, in any interleaving. What one
// builder gets is what its program gives when it runs alone.
module builders {
  import field.* from "./field"
  import poseidon.* from "./poseidon"

  // a register: residue, and exclusive bound on the integer the circuit may carry for it
  type Reg = { v: int, w: int }
  // one instruction: operation, register operands, integer literals
  type Ins = { op: str, args: List[int], aux: List[int] }
  type Builder = { kind: str, chip: int, asked: int, done: bool, prog: List[Ins], regs: List[Reg] }
  type Ev = { op: str, b: int, ins: Ins, out: List[int] }

  // the builders gnark has, its test engine, and an interpreter with the three range checkers a builder may come with
  pure val KINDS: List[str] = ["r1cs", "scs", "r1cs", "scs", "test", "native", "commit", "bits"]
  pure val OPS: List[str] = ["add", "sub", "mul", "mulAdd", "mulAdd", "addNR", "subNR", "mulNR", "mulAddNR", "mulAddNR", "mulAddNR", "reduce",
    "reduce", "inv", "range", "in", "in", "const", "mulE", "again", "pool", "hash", "root", "subgroup"]
  pure val EDGE: List[int] = [0, 1, 2, P - 1, P - 2, 2^32 - 1, 2^32, P - 2^32, 2^63]
  pure val MAXW = P * 2^144
  pure val NOINS: Ins = { op: "", args: [], aux: [] }
  pure val START: List[Reg] = [{ v: 0, w: P }, { v: 1, w: P }, { v: P - 1, w: P }]

  var bs: List[Builder]
  var chips: int        // chips created so far, over all builders
  var bitsOnly: bool    // the documented switch that selects bit decomposition
  var ev: Ev

  pure def can(r: Reg): bool = r.w <= P
  pure def red(x: int): Reg = { v: x % P, w: P }
  // the result of an instruction on a register file; a list, empty if it gives none
  pure def result(l: List[Reg], i: Ins): List[Reg] = {
    pure val a = if (i.args.length() > 0) l[i.args[0]] else START[0]
    pure val b = if (i.args.length() > 1) l[i.args[1]] else START[0]
    pure val c = if (i.args.length() > 2) l[i.args[2]] else START[0]
    pure val d = if (i.args.length() > 3) l[i.args[3]] else START[0]
    if (i.op == "in" or i.op == "const") [red(i.aux[0])]
    else if (i.op == "add") [red(a.v + b.v)]
    else if (i.op == "sub") [red(a.v + P - b.v)]
    else if (i.op == "mul") [red(a.v * b.v)]
    else if (i.op == "mulAdd") [red(a.v * b.v + c.v)]
    else if (i.op == "addNR") [{ v: fadd(a.v, b.v), w: a.w + b.w }]
    else if (i.op == "subNR") [{ v: fsub(a.v, b.v), w: a.w + b.w * (P - 1) }]
    else if (i.op == "mulNR") [{ v: fmul(a.v, b.v), w: a.w * b.w }]
    else if (i.op == "mulAddNR") [{ v: fadd(fmul(a.v, b.v), c.v), w: a.w * b.w + c.w }]
    else if (i.op == "reduce") [red(a.v)]
    else if (i.op == "inv") [red(finv(a.v))]
    else if (i.op == "mulE") {
      pure val e = emul((a.v, b.v), (c.v, d.v))
      [red(e._1), red(e._2)]
    }
    else if (i.op == "root") [red(rootOfUnity(i.aux[0]))]
    else if (i.op == "subgroup") range(0, 2^i.aux[0]).foldl([], (acc, k) => acc.append(red(fpow(rootOfUnity(i.aux[0]), k))))
    else if (i.op == "hash") glHash([a.v, b.v, c.v, d.v]).foldl([], (acc, x) => acc.append(red(x)))
    else []
  }
  pure def solo(p: List[Ins]): List[Reg] = p.foldl(START, (l, i) => l.concat(result(l, i)))

  // operands an instruction can have here: a reduced register where a reduced one is needed
  pure def choose(l: List[Reg], op: str, t: List[int]): List[int] = {
    pure val canon = l.indices().filter(i => can(l[i]))
    pure val raw = Set("addNR", "subNR", "mulNR", "mulAddNR", "reduce").contains(op)
    pure val n = if (op == "mulAdd" or op == "mulAddNR") 3 else if (op == "mulE" or op == "hash" or op == "pool") 4
      else if (op == "reduce" or op == "inv" or op == "range") 1 else if (op == "in" or op == "const" or op == "again" or op == "root" or op == "subgroup") 0 else 2
    range(0, n).foldl([], (acc, k) => acc.append({
      pure val i = t[k] % l.length()
      if (raw or canon.contains(i)) i else 0.to(l.length() - 1).fold(0, (m, j) => if (j <= i and canon.contains(j) and j > m) j else m)
    }))
  }
  // an instruction that stays within the bound, if there is one
  pure def fit(l: List[Reg], i: Ins): Ins =
    if (i.op == "inv" and l[i.args[0]].v == 0) { op: "range", args: i.args, aux: [] }
    else if (result(l, i).foldl(false, (x, r) => x or r.w > MAXW)) { op: "reduce", args: [i.args[0]], aux: [] }
    else i

  action init = {
    nondet n = 2.to(4).oneOf()
    nondet k0 = 0.to(7).oneOf()
    nondet k1 = 0.to(7).oneOf()
    nondet k2 = 0.to(7).oneOf()
    nondet k3 = 0.to(7).oneOf()
    nondet bo = 0.to(3).oneOf()
    all {
      bs' = [k0, k1, k2, k3].slice(0, n).foldl([], (acc, k) =>
        acc.append({ kind: KINDS[k], chip: 0, asked: 0, done: false, prog: [], regs: START })),
      chips' = 0, bitsOnly' = (bo > 0), ev' = { op: "init", b: 0, ins: NOINS, out: [] },
    }
  }
  // the first request creates the chip, later ones give the same one
  action open(b: int): bool = all {
    bs' = bs.replaceAt(b, { ...bs[b], chip: if (bs[b].chip == 0) chips + 1 else bs[b].chip, asked: bs[b].asked + 1 }),
    chips' = if (bs[b].chip == 0) chips + 1 else chips,
    bitsOnly' = bitsOnly, ev' = { op: "open", b: b, ins: NOINS, out: [] },
  }
  action instr(b: int, i: Ins): bool = all {
    bs' = bs.replaceAt(b, { ...bs[b], prog: bs[b].prog.append(i), regs: bs[b].regs.concat(result(bs[b].regs, i)) }),
    chips' = chips, bitsOnly' = bitsOnly,
    ev' = { op: "ins", b: b, ins: i, out: result(bs[b].regs, i).foldl([], (acc, r) => acc.append(r.v)) },
  }
  // the builder finishes; out: what its canonical registers hold (in order), -1 for the others
  action close(b: int): bool = all {
    bs' = bs.replaceAt(b, { ...bs[b], done: true }), chips' = chips, bitsOnly' = bitsOnly,
    ev' = { op: "close", b: b, ins: NOINS, out: bs[b].regs.foldl([], (acc, r) => acc.append(if (can(r)) r.v else -1)) },
  }
  action rest = all { bs' = bs, chips' = chips, bitsOnly' = bitsOnly, ev' = { ...ev, op: "rest" } }
  action step = {
    nondet b = 0.to(3).oneOf()
    nondet o = 0.to(23).oneOf()
    nondet c = 0.to(19).oneOf()
    nondet e = 0.to(8).oneOf()
    nondet x = 0.to(P - 1).oneOf()
    nondet r = 0.to(1).oneOf()
    nondet t0 = 0.to(63).oneOf()
    nondet t1 = 0.to(63).oneOf()
    nondet t2 = 0.to(63).oneOf()
    nondet t3 = 0.to(63).oneOf()
    nondet same = 0.to(3).oneOf()
    val m = b % bs.length()
    // often the same register in several places: what one of them does must not show in the others
    val t = if (same == 0) [t0, t0, t0, t0] else if (same == 1) [t0, t1, t0, t1] else [t0, t1, t2, t3]
    val i = { op: OPS[o], args: choose(bs[m].regs, OPS[o], t), aux: if (OPS[o] == "in" or OPS[o] == "const") [if (r == 0) EDGE[e] else x]
      else if (OPS[o] == "root") [x % 33] else if (OPS[o] == "subgroup") [x % 4] else [] }
    if (bs[m].done) rest
    else if (bs[m].chip == 0 or OPS[o] == "again") open(m)
    else if (bs[m].prog.length() >= 14 or (c == 0 and bs[m].prog.length() > 5)) close(m)
    else instr(m, fit(bs[m].regs, i))
  }

  // what a builder has is what its own program gives alone
  val isolated = bs.indices().forall(b => bs[b].regs == solo(bs[b].prog))
  // every builder in use has one chip of its own
  val ownChip = and {
    bs.indices().forall(b => (bs[b].chip > 0) == (bs[b].asked > 0) and bs[b].chip <= chips),
    bs.indices().forall(b => bs.indices().forall(c => bs[b].chip > 0 and bs[b].chip == bs[c].chip implies b == c)),
    chips == bs.indices().filter(b => bs[b].chip > 0).size(),
  }
  val bounded = bs.indices().forall(b => bs[b].regs.indices().forall(i => bs[b].regs[i].v < P and bs[b].regs[i].w <= MAXW))
  val inv = isolated and ownChip and bounded
}
