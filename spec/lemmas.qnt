// Uniqueness lemmas at the real parameters, discharged by Apalache (quint verify, 1 step).
//
// A malicious prover picks the auxiliary values of a gadget; native-field equations hold modulo R, so
// an equation between integers may be off by k*R.  Each module is a two-state game: `init` is the
// statement, `play` is the prover's move, `sound` says that the move determines the right result.
module lemmas {
  pure val P: int = 18446744069414584321
  pure val R: int = 21888242871839275222246405745257275088548364400416034343698204186575808495617

  var op: str
  var x: int     // value to be reduced / checked (X = a*b + c for multiply-add)
  var q: int
  var r: int
  var k: int     // multiples of R by which the integer equation is off
  var n: int     // declared bit bound of the quotient
  var played: bool

  action start(o: str, hi: int, nb: int): bool = all {
    op' = o, n' = nb, q' = 0, r' = 0, k' = 0, played' = false,
    { nondet v = 0.to(hi).oneOf()
      x' = v }
  }
  action init = any {
    // X = a*b + c over canonical a, b, c
    start("mulAdd", (P - 1) * (P - 1) + (P - 1), 0),
    // reductions: any native value, declared quotient widths used by the system
    start("reduce", R - 1, 144),
    start("reduce", R - 1, 128),
    // one canonical element is split into two 32-bit limbs; x is any native value
    start("split", R - 1, 0)
  }
  // the width that the original s-box used: unsound (kept as a negative control)
  action init192 = start("reduce", R - 1, 192)

  action play = all {
    not(played),
    op' = op, x' = x, n' = n, played' = true,
    { nondet q1 = Int.oneOf()
      nondet r1 = Int.oneOf()
      nondet k1 = Int.oneOf()
      all {
        q1 >= 0, r1 >= 0,
        if (op == "mulAdd") all { q1 < P, r1 < P, x + k1 * R == q1 * P + r1 }
        else if (op == "reduce")
          all { if (n == 144) q1 < 22300745198530623141535718272648361505980416
                else if (n == 128) q1 < 340282366920938463463374607431768211456
                else q1 < 6277101735386680763835789423207666416102355444464034512896,
                r1 < P, x + k1 * R == q1 * P + r1 }
        else all { q1 < 4294967296, r1 < 4294967296, x + k1 * R == q1 * 4294967296 + r1, (q1 == 4294967295) implies (r1 == 0) },
        q' = q1, r' = r1, k' = k1
      }
    }
  }
  action idle = all { played, op' = op, x' = x, n' = n, q' = q, r' = r, k' = k, played' = played }
  action step = any { play, idle }

  // the remainder is the canonical residue, and an accepted split proves canonicity
  val sound = played implies (
    if (op == "split") x < P and k == 0
    else k == 0 and r < P and q * P + r == x)
}
