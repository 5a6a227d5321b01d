"""What each check explores. simulate: quint runs; verify: Apalache runs; replay: harness runs on the generated behaviours."""

RC = ["gnark v0.9.1's own gadgets (bit decomposition, IsZero, Select, the log-derivative lookup argument) enforce what they document"]

CHECKS = {
    "C04": dict(
        level="model_checking",
        simulate=[
            dict(label="arith", spec="adversary.qnt", step="step", invariant="inv", quick=dict(samples=24, steps=20, procs=2),
                 thorough=dict(samples=240, steps=30, procs=6)),
            dict(label="hash", spec="adversary.qnt", step="stepHash", invariant="inv", quick=dict(samples=2, steps=1),
                 thorough=dict(samples=8, steps=2, procs=2)),
        ],
        verify=[
            dict(label="accepted reductions are unique for every prover choice", spec="lemmas.qnt", invariant="sound", steps=2),
            dict(label="negative control: a 192-bit quotient admits two remainders", spec="lemmas.qnt", init="init192",
                 invariant="sound", steps=2, expect="violated"),
        ],
        replay=[dict(cmd="vfield", sub="hints")],
        assumptions=RC + ["prover strategies are those derivable from the relations checked by the gadgets (all solutions of the relation within the accepted ranges, plus shifts by the field moduli)"],
    ),
    "C05": dict(
        level="exploration",
        simulate=[dict(label="base", spec="fieldops.qnt", step="stepBase", invariant="inv",
                       quick=dict(samples=480, steps=30, procs=8), thorough=dict(samples=3000, steps=40, procs=8))],
        replay=[dict(cmd="vfield", sub="ops")],
        assumptions=RC,
    ),
    "C06": dict(
        level="exploration",
        simulate=[dict(label="ext", spec="fieldops.qnt", step="stepExt", invariant="inv",
                       quick=dict(samples=240, steps=25, procs=6), thorough=dict(samples=1500, steps=40, procs=8))],
        replay=[dict(cmd="vfield", sub="ops")],
        assumptions=RC,
    ),
    "C07": dict(
        level="model_checking",
        simulate=[
            dict(label="plain", spec="rangecheck.qnt", step="step", invariant="inv",
                 quick=dict(samples=60, steps=30, procs=2), thorough=dict(samples=1200, steps=40, procs=8)),
            dict(label="commit", spec="rangecheck.qnt", step="stepCommit", invariant="inv",
                 quick=dict(samples=64, steps=20, procs=4), thorough=dict(samples=400, steps=24, procs=8)),
        ],
        verify=[dict(label="accepted range checks and reductions pin the value for every prover choice", spec="lemmas.qnt",
                     invariant="sound", steps=2, tiers=("thorough",))],
        replay=[dict(cmd="vfield", sub="ranges")],
        assumptions=RC,
    ),
    "C08": dict(
        level="exploration",
        simulate=[dict(label="gl", spec="hashing.qnt", step="stepGl", invariant="inv",
                       quick=dict(samples=60, steps=12, procs=6), thorough=dict(samples=800, steps=20, procs=8))],
        replay=[dict(cmd="vhash", sub="hash")],
        assumptions=RC,
    ),
    "C09": dict(
        level="exploration",
        simulate=[dict(label="bn", spec="hashing.qnt", step="stepBn", invariant="inv",
                       quick=dict(samples=80, steps=14, procs=4), thorough=dict(samples=1500, steps=25, procs=8))],
        replay=[dict(cmd="vhash", sub="hash")],
        assumptions=RC,
    ),
    "C10": dict(
        level="exploration",
        simulate=[dict(label="chal", spec="challenger.qnt", step="step", invariant="inv",
                       quick=dict(samples=70, steps=22, procs=6), thorough=dict(samples=900, steps=35, procs=8))],
        replay=[dict(cmd="vchal", sub="challenger")],
        assumptions=RC,
    ),
    "C14": dict(
        level="exploration",
        simulate=[dict(label="rows", spec="gaterows.qnt", step="step", invariant="inv",
                       quick=dict(samples=60, steps=20, procs=6), thorough=dict(samples=900, steps=30, procs=8))],
        replay=[dict(cmd="vgates", sub="rows")],
        assumptions=RC,
    ),
    "C15": dict(
        level="exploration",
        simulate=[dict(label="identity", spec="plonkrun.qnt", step="step", invariant="inv",
                       quick=dict(samples=48, steps=12, procs=8), thorough=dict(samples=700, steps=20, procs=8))],
        replay=[dict(cmd="vgates", sub="identity")],
        assumptions=RC,
    ),
    "C16": dict(
        level="exploration",
        simulate=[dict(label="ids", spec="gateids.qnt", step="step", invariant="inv",
                       quick=dict(samples=60, steps=25, procs=4), thorough=dict(samples=1500, steps=40, procs=8))],
        replay=[dict(cmd="vgates", sub="ids")],
        assumptions=[],
    ),
    "C11": dict(
        level="exploration",
        simulate=[dict(label="transcript", spec="transcript.qnt", init="tinit", step="tstep", invariant="tinv",
                       quick=dict(samples=18, steps=70, procs=6), thorough=dict(samples=300, steps=120, procs=8))],
        replay=[dict(cmd="vchal", sub="transcript")],
        assumptions=RC,
    ),
    "C12": dict(
        level="exploration",
        simulate=[dict(label="merkle", spec="frirun.qnt", step="stepMerkle", invariant="inv",
                       quick=dict(samples=16, steps=10, procs=8), thorough=dict(samples=400, steps=20, procs=8))],
        replay=[dict(cmd="vfri", sub="fri")],
        assumptions=RC,
    ),
    "C13": dict(
        level="exploration",
        simulate=[dict(label="fri", spec="frirun.qnt", step="stepFri", invariant="inv",
                       quick=dict(samples=40, steps=14, procs=8), thorough=dict(samples=400, steps=20, procs=8))],
        replay=[dict(cmd="vfri", sub="fri")],
        assumptions=RC,
    ),
    "C01": dict(
        level="exploration",
        gen=dict(cmd="vproof", profile="honest", shards=8),
        simulate=[dict(label="honest", spec="tamper.qnt", step="oneByOne", invariant="inv",
                       quick=dict(samples=8, steps=4, procs=8), thorough=dict(samples=8, steps=12, procs=8))],
        replay=[dict(cmd="vproof", sub="honest")],
        assumptions=RC,
    ),
    "C02": dict(
        level="exploration",
        gen=dict(cmd="vproof", profile="alter", shards=8),
        simulate=[dict(label="dishonest", spec="tamper.qnt", step="oneByOne", invariant="inv",
                       quick=dict(samples=8, steps=4, procs=8), thorough=dict(samples=8, steps=10, procs=8)),
                  dict(label="altered", spec="tamper.qnt", step="stepMove", invariant="inv",
                       quick=dict(samples=16, steps=12, procs=8), thorough=dict(samples=80, steps=30, procs=8))],
        replay=[dict(cmd="vproof", sub="alter")],
        assumptions=RC,
    ),
    "C03": dict(
        level="exploration",
        gen=dict(cmd="vproof", profile="over", shards=8),
        simulate=[dict(label="crafted", spec="tamper.qnt", step="oneByOne", invariant="inv",
                       quick=dict(samples=8, steps=6, procs=8), thorough=dict(samples=8, steps=14, procs=8)),
                  dict(label="altered", spec="tamper.qnt", step="stepOver", invariant="inv",
                       quick=dict(samples=16, steps=12, procs=8), thorough=dict(samples=80, steps=30, procs=8))],
        replay=[dict(cmd="vproof", sub="over")],
        assumptions=RC,
    ),
    "C18": dict(
        level="exploration",
        gen=dict(cmd="vproof", profile="shape", shards=8),
        simulate=[dict(label="crafted", spec="tamper.qnt", step="oneByOne", invariant="inv",
                       quick=dict(samples=8, steps=7, procs=8), thorough=dict(samples=8, steps=20, procs=8)),
                  dict(label="altered", spec="tamper.qnt", step="stepShape", invariant="inv",
                       quick=dict(samples=16, steps=12, procs=8), thorough=dict(samples=80, steps=30, procs=8))],
        replay=[dict(cmd="vproof", sub="shape")],
        assumptions=RC,
    ),
    "C17": dict(
        level="exploration",
        simulate=[dict(label="files", spec="loading.qnt", step="step", invariant="inv",
                       quick=dict(samples=120, steps=30, procs=6), thorough=dict(samples=3000, steps=50, procs=8))],
        replay=[dict(cmd="vload", sub="files")],
        assumptions=["the file system returns what was written"],
    ),
    "C19": dict(
        level="model_checking",
        simulate=[dict(label="ceremony", spec="ceremony.qnt", step="step", invariant="inv",
                       quick=dict(samples=120, steps=60, procs=6), thorough=dict(samples=3000, steps=80, procs=8))],
        verify=[dict(label="only sound chains are written, for every ceremony, starting point and fault", spec="ceremony.qnt", invariant="inv",
                     steps=5),
                dict(label="only sound chains are written (deeper)", spec="ceremony.qnt", invariant="inv", steps=8, timeout=3000,
                     tiers=("thorough",))],
        replay=[dict(cmd="vsetup", sub="runs")],
        assumptions=["gnark-crypto's BN254 pairings and KZG scheme; gnark-ignition-verifier's checks of a single contribution"],
    ),
    "C20": dict(
        level="model_checking",
        gen=dict(cmd="vproof", profile="conc", shards=1),
        simulate=[dict(label="builders", spec="builders.qnt", step="step", invariant="inv",
                       quick=dict(samples=72, steps=60, procs=6), thorough=dict(samples=900, steps=60, procs=8))],
        verify=[
            dict(label="one chip per builder, no check lost or misplaced, in every interleaving of three threads", tool="tlc",
                 spec="registry.qnt", invariant="inv"),
            dict(label="negative control: without the locks", tool="tlc", spec="registry.qnt", step="stepUnlocked", invariant="inv",
                 expect="violated"),
            dict(label="the invariant of the registry is inductive", spec="registry.qnt", init="initInd", step="stepInd",
                 invariant="kept", steps=1, timeout=3000, tiers=("thorough",)),
        ],
        replay=[dict(cmd="vbuild", sub="gated"), dict(cmd="vbuild", sub="free", race=True),
                dict(cmd="vproof", sub="shared", race=True), dict(cmd="vproof", sub="circuits")],
        assumptions=RC + ["the race detector observes the schedules the Go scheduler happens to produce"],
    ),
}
