// The proofs to judge. This list is empty: each run of a check writes its own next to a copy of the specification.
module pdata {
  import field.* from "./field"
  import plonk.* from "./plonk"
  import fri.* from "./fri"
  import verifier.* from "./verifier"
  pure val INSTANCES: List[Inst] = []
}
