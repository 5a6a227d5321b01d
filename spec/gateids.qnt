// Gate identifiers: which text names which gate. An identifier is a sequence of tokens (the replayer writes them one
// after another); exactly the identifiers of supported gates are understood, anything else is refused.
module gateids {
  import field.* from "./field"
  import data.* from "./data"
  import gates.* from "./gates"

  // s = "#" stands for the decimal number n
  type Tok = { s: str, n: int }
  pure def t(s: str): Tok = { s: s, n: 0 }
  pure def num(n: int): Tok = { s: "#", n: n }
  pure val PHANTOM: Tok = t(", _phantom: PhantomData<plonky2_field::goldilocks_field::GoldilocksField> }")
  pure def ofGate(g: Gate): List[Tok] =
    if (g.kind == "noop") [t("NoopGate")]
    else if (g.kind == "publicInput") [t("PublicInputGate")]
    else if (g.kind == "constant") [t("ConstantGate { num_consts: "), num(g.p[0]), t(" }")]
    else if (g.kind == "arithmetic") [t("ArithmeticGate { num_ops: "), num(g.p[0]), t(" }")]
    else if (g.kind == "arithmeticExt") [t("ArithmeticExtensionGate { num_ops: "), num(g.p[0]), t(" }")]
    else if (g.kind == "mulExt") [t("MulExtensionGate { num_ops: "), num(g.p[0]), t(" }")]
    else if (g.kind == "baseSum") [t("BaseSumGate { num_limbs: "), num(g.p[0]), t(" }"), t(" + Base: "), num(g.p[1])]
    else if (g.kind == "exponentiation") [t("ExponentiationGate { num_power_bits: "), num(g.p[0]), PHANTOM, t("<D="), num(2), t(">")]
    else if (g.kind == "randomAccess")
      [t("RandomAccessGate { bits: "), num(g.p[0]), t(", num_copies: "), num(g.p[1]), t(", num_extra_constants: "), num(g.p[2]), PHANTOM, t("<D="), num(2), t(">")]
    else if (g.kind == "reducing") [t("ReducingGate { num_coeffs: "), num(g.p[0]), t(" }")]
    else if (g.kind == "reducingExt") [t("ReducingExtensionGate { num_coeffs: "), num(g.p[0]), t(" }")]
    else if (g.kind == "coset")
      range(1, g.ws.length()).foldl(
        [t("CosetInterpolationGate { subgroup_bits: "), num(g.p[0]), t(", degree: "), num(g.p[1]), t(", barycentric_weights: ["), num(g.ws[0])],
        (acc, i) => acc.append(t(", ")).append(num(g.ws[i]))).concat([t("]"), PHANTOM, t("<D="), num(2), t(">")])
    else if (g.kind == "poseidon") [t("PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)"), t("<WIDTH="), num(12), t(">")]
    else [t("PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)"), t("<WIDTH="), num(12), t(">")]

  pure val FOREIGN: List[str] = ["LookupGate {num_slots: 40, lut_hash: [1, 2]}", "LookupTableGate {num_slots: 26}", "AssertLessThanGate",
    "U32ArithmeticGate { num_ops: 3 }", "Noop", "noopgate", "", " ", "PublicInput", "LowDegreeInterpolationGate { subgroup_bits: 4 }",
    "InterpolationGate { subgroup_bits: 4 }", "ArithmeticGate", "ArithmeticGate { num_ops:  }", "ConstantGate { num_consts: -1 }",
    "ArithmeticGate { num_ops: 20 }ArithmeticGate { num_ops: 20 }", "Poseidon2Gate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>",
    "MyNoopGate", "NoopGateV2", "NoopGate NoopGate", "U32NoopGate", "BigArithmeticGate { num_ops: 20 }", "SwitchGate { chunk_size: 4 }"]
  pure val EXTRA: List[str] = ["X", " ", "2", "<D=2>", "<WIDTH=12>", "Wrapped(", ")", "NoopGate", "U32", "My", ", ", "{ }", "::"]

  // one field in place of another
  pure val PHANTOMS: List[str] = [", _phantom: PhantomData<plonky2_field::secp256k1_base::Secp256K1Base> }",
    ", _phantom: PhantomData<plonky2_field::secp256k1_scalar::Secp256K1Scalar> }", ", _phantom: PhantomData<F> }", ", _phantom: PhantomData<> }",
    ", _phantom: PhantomData<plonky2_field::goldilocks_field::goldilocksfield> }", ", _phantom: PhantomData }", " }",
    ", _phantom: PhantomData<plonky2_field::extension::quadratic::QuadraticExtension<plonky2_field::goldilocks_field::GoldilocksField>> }",
    ", _phantom: PhantomData<plonky2_field::mersenne_field::MersenneField> }"]
  // what happens to one character of a fixed token (the replayer does it): none, replaced by ch, removed, doubled, ch put before it
  type Edit = { how: int, tok: int, at: int, ch: str }
  pure val NOEDIT: Edit = { how: 0, tok: 0, at: 0, ch: "" }
  pure val CHARS: List[str] = ["x", "_", " ", "G", ":", "<", "}", "é", "\t", "/", "-", "."]

  type Ev = { op: str, edit: Edit, toks: List[Tok], known: bool, gate: Gate, wires: List[int], consts: List[int], pih: List[int], out: List[int] }
  var ev: Ev
  pure val NOOP: Gate = { kind: "noop", p: [], ws: [] }
  action init = ev' = { op: "init", edit: NOEDIT, toks: [], known: false, gate: NOOP, wires: [], consts: [], pih: [], out: [] }

  action named = {
    nondet k = 0.to(KINDS.length() - 1).oneOf()
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet wr = 0.to(P^16 - 1).oneOf()
    nondet r = 0.to(P^290 - 1).oneOf()
    nondet cr = 0.to(P^20 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    val g = mkGate(KINDS[k], x, elems(wr, s, 16))
    val row = { w: exts(r, s, numWires(g)), c: exts(cr, s, numConsts(g)), h: elems(cr / P^16, s, 4) }
    ev' = { op: "named", edit: NOEDIT, toks: ofGate(g), known: true, gate: g, wires: flat(row.w), consts: flat(row.c), pih: row.h, out: flat(constraints(g, row)) }
  }
  pure def without(l: List[Tok], i: int): List[Tok] = l.slice(0, i).concat(l.slice(i + 1, l.length()))
  pure def insertAt(l: List[Tok], i: int, e: Tok): List[Tok] = l.slice(0, i).append(e).concat(l.slice(i, l.length()))
  // does the sequence, read as text, name a supported gate? Two spellings of one text are equal here because adjacent
  // fixed tokens only arise in ofGate in one way, and numbers never touch.
  pure def isWeight(l: List[Tok], i: int): bool = l[0].s == "CosetInterpolationGate { subgroup_bits: " and i > 4
  action spoiled = {
    nondet k = 0.to(KINDS.length() - 1).oneOf()
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet wr = 0.to(P^16 - 1).oneOf()
    nondet how = 0.to(6).oneOf()
    nondet at = 0.to(1000).oneOf()
    nondet ex = 0.to(EXTRA.length() - 1).oneOf()
    nondet fo = 0.to(FOREIGN.length() - 1).oneOf()
    nondet big = 64.to(80).oneOf()
    val g = mkGate(KINDS[k], x, elems(wr, 1, 16))
    val l = ofGate(g)
    val i = at % l.length()
    val toks =
      if (how == 0) [t(FOREIGN[fo])]
      // text before or after
      else if (how == 1) (if (at % 2 == 0) insertAt(l, 0, t(EXTRA[ex])) else l.append(t(if (g.kind == "baseSum" and ex == 2) "X" else EXTRA[ex])))
      // a missing token (weights come in lists, whose length is not part of the name)
      else if (how == 2) (if (isWeight(l, i) or l.length() == 1) without(l, 0) else without(l, i))
      // a wrong fixed parameter
      else if (how == 3) range(0, l.length()).foldl([], (acc, j) => acc.append(
        if (j > 0 and (l[j - 1].s == "<D=" or l[j - 1].s == "<WIDTH=")) num(if (l[j].n == 2) 1 + 2 * (at % 3) else 8 + 8 * (at % 2)) else l[j]))
      // a number that no parameter can have
      else if (how == 4) range(0, l.length()).foldl([], (acc, j) => acc.append(
        if (l[j].s == "#" and j < 6) num(2^big + l[j].n) else l[j]))
      // another field
      else if (how == 5) range(0, l.length()).foldl([], (acc, j) => acc.append(if (l[j] == PHANTOM) t(PHANTOMS[at % PHANTOMS.length()]) else l[j]))
      // one gate's text inside another's
      else l.concat(ofGate(NOOP))
    // (the spoiling may not apply to this gate)
    val same = toks == l
    ev' = { op: if (same) "unchanged" else "spoiled", edit: NOEDIT, toks: toks, known: same, gate: g, wires: [], consts: [], pih: [], out: [] }
  }
  // one character of a fixed token changed: never a name (numbers are left alone, and CHARS has no digit)
  action misspelt = {
    nondet k = 0.to(KINDS.length() - 1).oneOf()
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet wr = 0.to(P^16 - 1).oneOf()
    nondet how = 1.to(4).oneOf()
    nondet tok = 0.to(1000).oneOf()
    nondet at = 0.to(10000).oneOf()
    nondet ch = 0.to(CHARS.length() - 1).oneOf()
    val g = mkGate(KINDS[k], x, elems(wr, 1, 16))
    ev' = { op: "misspelt", edit: { how: how, tok: tok, at: at, ch: CHARS[ch] }, toks: ofGate(g), known: false, gate: g, wires: [], consts: [],
            pih: [], out: [] }
  }
  // numbers written with zeros in front, lists with other spacing: not what Plonky2 prints, so it may be refused; if it is taken, then as decimal
  action respelt = {
    nondet k = 0.to(KINDS.length() - 1).oneOf()
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet wr = 0.to(P^16 - 1).oneOf()
    nondet r = 0.to(P^290 - 1).oneOf()
    nondet cr = 0.to(P^20 - 1).oneOf()
    nondet which = 0.to(7).oneOf()
    val g0 = mkGate(KINDS[k], x, elems(wr, 1, 16))
    // two octal digits where the gate allows it
    val g = if (g0.kind == "arithmetic" or g0.kind == "arithmeticExt" or g0.kind == "mulExt" or g0.kind == "reducing" or g0.kind == "reducingExt"
                or g0.kind == "exponentiation") { ...g0, p: g0.p.replaceAt(0, 10 + x % 6) }
            else if (g0.kind == "randomAccess") { ...g0, p: [1 + x % 2, 10 + x % 3, x % 3] }
            else if (g0.kind == "baseSum") { ...g0, p: [10 + x % 8, 2 + x % 3] }
            else if (g0.kind == "constant") { ...g0, p: [10 + x % 4] }
            else g0
    val row = { w: exts(r, 1, numWires(g)), c: exts(cr, 1, numConsts(g)), h: elems(cr / P^16, 1, 4) }
    val l = ofGate(g)
    val toks = range(0, l.length()).foldl([], (acc, j) => acc.append(
      if (l[j].s == "#" and (which > 5 or (j / 2) % 3 == which % 3)) { s: "#0", n: l[j].n }
      else if (which > 3 and isWeight(l, j) and l[j].s == ", ") t(if (which % 2 == 0) "," else ",  ") else l[j]))
    ev' = { op: if (toks == l) "unchanged" else "respelt", edit: NOEDIT, toks: toks, known: true, gate: g, wires: flat(row.w), consts: flat(row.c),
            pih: row.h, out: flat(constraints(g, row)) }
  }
  action step = any { named, spoiled, misspelt, respelt }

  // distinct gates have distinct names, and a spoiled name is not the name of the gate it came from
  val faithful = ((ev.op == "named" or ev.op == "respelt") implies ev.out.length() == 2 * numConstraints(ev.gate))
    and (ev.op == "spoiled" implies ev.toks != ofGate(ev.gate))
  val inv = faithful
}
