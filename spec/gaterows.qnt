// Rows of custom gates evaluated one after another: any row, satisfied rows, satisfied rows with one wire moved.
module gaterows {
  import field.* from "./field"
  import data.* from "./data"
  import gates.* from "./gates"

  // ---- behaviours: rows of gates are evaluated one after another
  type Ev = { op: str, gate: Gate, wires: List[int], consts: List[int], pih: List[int], satisfied: bool, out: List[int] }
  var ev: Ev
  pure val NOOP: Gate = { kind: "noop", p: [], ws: [] }
  action init = ev' = { op: "init", gate: NOOP, wires: [], consts: [], pih: [], satisfied: true, out: [] }
  action evalRow = {
    nondet k = 0.to(KINDS.length() - 1).oneOf()
    nondet x = 0.to(2^20 - 1).oneOf()
    nondet wr = 0.to(P^16 - 1).oneOf()
    nondet r = 0.to(P^290 - 1).oneOf()
    nondet cr = 0.to(P^20 - 1).oneOf()
    nondet s = 0.to(8).oneOf()
    nondet mode = 0.to(3).oneOf()
    nondet hit = 0.to(1000).oneOf()
    nondet d = 1.to(P - 1).oneOf()
    val g = mkGate(KINDS[k], x, elems(wr, s, 16))
    val c = exts(cr, s, 8)
    val raw = { w: exts(r, s, numWires(g) + x % 3), c: c, h: elems(cr / P^16, s, 4) }
    // any row, a satisfied row, or a satisfied row with one wire moved
    val row =
      if (mode == 0) raw
      else {
        val full = complete(g, raw)
        if (mode == 3 and full.w.length() > 0) full.with("w", bump(full.w, hit % full.w.length(), if (x % 2 == 0) (d, 0) else (0, d))) else full
      }
    ev' = { op: "row", gate: g, wires: flat(row.w), consts: flat(row.c), pih: row.h,
            satisfied: mode == 1 or mode == 2, out: flat(constraints(g, row)) }
  }
  action step = evalRow

  // ---- model-level facts
  val asRow: Row = { w: pairs(ev.wires), c: pairs(ev.consts), h: ev.pih }
  val shape = ev.op == "row" implies ev.out.length() == 2 * numConstraints(ev.gate)
  // a completed row satisfies its gate, and does what the gate stands for
  val honest = (ev.op == "row" and ev.satisfied) implies and {
    ev.out.indices().forall(i => ev.out[i] == 0), meaning(ev.gate, asRow) }
  val inRange = ev.out.indices().forall(i => canonical(ev.out[i]))
  val inv = shape and honest and inRange
}
