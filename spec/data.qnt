// Turning one large nondeterministic integer into lists of field elements that mix edge values with random ones.
module data {
  import field.* from "./field"
  pure val EDGES: List[int] = [0, 1, 2, 7, 2^16, 2^31, 2^32 - 2, 2^32 - 1, 2^32, 2^32 + 1, 2^63, P - 2^32, P - 2^32 + 1, P - 2^31, P - 2, P - 1, (P - 1) / 2]
  // n elements out of r (random in [0, P^k), k >= n): with s % 3 == 0 about half edges, 1: all random, 2: all from a small set
  pure def elems(r: int, s: int, n: int): List[int] =
    range(0, n).foldl({ x: r, acc: [] }, (st, i) => {
      pure val d = st.x % P
      pure val v =
        if (s % 3 == 1) d
        else if (s % 3 == 0) (if (d % 2 == 0) EDGES[(d / 2) % EDGES.length()] else d)
        else EDGES[d % EDGES.length()]
      { x: st.x / P, acc: st.acc.append(v) }
    }).acc
  pure def pairs(l: List[int]): List[Ext] =
    range(0, l.length() / 2).foldl([], (acc, i) => acc.append((l[2 * i], l[2 * i + 1])))
  pure def exts(r: int, s: int, n: int): List[Ext] = pairs(elems(r, s, 2 * n))
  pure def flat(l: List[Ext]): List[int] = l.foldl([], (acc, e) => acc.append(e._1).append(e._2))

  // an error of one coordinate (even k), or errors of both that stand in a ratio at which a comparison that merges the
  // coordinates into one number could lose them
  pure val RATIOS: List[int] = [1, 2^32, 2^32, P - 1, 2^32, 7, 2^32, P - 7, 2^16, 2, 2^63, 2^32 - 1]
  pure def pairErr(k: int, d: int): Ext =
    if (k % 4 == 0) (d, 0) else if (k % 4 == 2) (0, d) else {
      pure val m = if ((k / 4) % 3 == 2) d else 1 + d % 8
      pure val r = fmul(RATIOS[(k / 12) % RATIOS.length()], m)
      if (k % 4 == 1) (r, fneg(m)) else (fneg(m), r)
    }
}
