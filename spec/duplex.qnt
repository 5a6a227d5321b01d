// The duplex sponge behind the Fiat-Shamir transcript.
module duplex {
  import field.* from "./field"
  import poseidon.* from "./poseidon"

  type Ch = { state: List[int], inp: List[int], out: List[int] }
  pure val FRESH: Ch = { state: GL_ZERO, inp: [], out: [] }

  pure def duplex(c: Ch): Ch = {
    pure val s = glPerm(overwrite(c.state, c.inp))
    { state: s, inp: [], out: s.slice(0, 8) }
  }
  // an element may not be reduced yet; it counts modulo P
  pure def observe1(c: Ch, x: int): Ch = {
    pure val d = { state: c.state, inp: c.inp.append(x % P), out: [] }
    if (d.inp.length() == 8) duplex(d) else d
  }
  pure def observeAll(c: Ch, xs: List[int]): Ch = xs.foldl(c, (a, x) => observe1(a, x))
  pure def observeBn(c: Ch, h: int): Ch = observeAll(c, bnToVec(h))
  pure def observeCap(c: Ch, hs: List[int]): Ch = hs.foldl(c, (a, h) => observeBn(a, h))
  // draw n challenges
  pure def draw(c0: Ch, n: int): { c: Ch, out: List[int] } =
    range(0, n).foldl({ c: c0, out: [] }, (s, i) => {
      pure val d = if (s.c.inp.length() > 0 or s.c.out.length() == 0) duplex(s.c) else s.c
      pure val k = d.out.length() - 1
      { c: { ...d, out: d.out.slice(0, k) }, out: s.out.append(d.out[k]) }
    })
}
