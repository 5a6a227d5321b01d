// The registry that gives every constraint builder its one arithmetic chip, and the list of range checks a chip collects
// until its builder finishes, as concurrent code in small steps: several threads work for one or several builders.
//   New:    lock; look the builder up; if it is unknown, create a chip (which leaves a callback with the builder) and
//           file it; unlock
//   check:  lock the chip's list; read it; write it back with one more entry; unlock
//   finish: when every thread of a builder is done, the builder runs the callbacks left with it
module registry {
  pure val THREADS: List[int] = [0, 1, 2]
  pure val BUILDERS: List[int] = [0, 1]
  pure val N = 2 // checks asked for by each thread
  // chips are numbered by the thread that created them and how many it had created before
  type Th = { pc: str, home: int, chip: int, seen: int, known: Set[int], left: int }

  var th: List[Th]
  var lock: int                 // thread holding the registry lock, -1: free
  var filed: List[int]          // builder -> chip, -1: none
  var callbacks: List[Set[int]] // builder -> chips whose callback it holds
  var created: List[int]        // builder -> how many chips were created for it
  var lists: int -> Set[int]    // chip -> checks collected (each check is numbered by its thread and position)
  var listLock: int -> int      // chip -> thread holding the lock of its list
  var flushed: List[Set[int]]   // builder -> checks that became constraints
  var finished: List[bool]
  var before: bool              // did the previous state satisfy the inductive invariant? (only tracked by stepInd)

  pure def checksOf(t: int, left: int): Set[int] = 0.to(N - 1).filter(i => i >= left).map(i => 10 * t + i)

  pure val ALL = 0.to(2).map(t => checksOf(t, 0)).flatten()

  action init = {
    nondet h = 0.to(7).oneOf()
    all {
      th' = [{ pc: "new", home: h % 2, chip: -1, seen: -1, known: Set(), left: N },
             { pc: "new", home: (h / 2) % 2, chip: -1, seen: -1, known: Set(), left: N },
             { pc: "new", home: (h / 4) % 2, chip: -1, seen: -1, known: Set(), left: N }],
      lock' = -1, filed' = [-1, -1], callbacks' = [Set(), Set()], created' = [0, 0],
      lists' = Set(0, 1, 2).mapBy(c => Set()), listLock' = Set(0, 1, 2).mapBy(c => -1),
      flushed' = [Set(), Set()], finished' = [false, false], before' = false,
    }
  }
  action keepReg = all { lock' = lock, filed' = filed, callbacks' = callbacks, created' = created }
  action keepLists = all { lists' = lists, listLock' = listLock }
  action keepEnd = all { flushed' = flushed, finished' = finished }
  action idle = all { th' = th, keepReg, keepLists, keepEnd }

  // one step of thread t; safe: whether the two locks are honoured
  action move(t: int, safe: bool): bool = {
    val me = th[t]
    val b = me.home
    if (me.pc == "new")
      if (lock == -1 or not(safe)) all { th' = th.replaceAt(t, { ...me, pc: "look" }),
        lock' = t, filed' = filed, callbacks' = callbacks, created' = created, keepLists, keepEnd }
      else idle
    else if (me.pc == "look") all {
      th' = th.replaceAt(t, { ...me, pc: if (filed[b] == -1) "make" else "unlock", seen: filed[b] }), keepReg, keepLists, keepEnd }
    else if (me.pc == "make") all {
      th' = th.replaceAt(t, { ...me, pc: "file", seen: t }),
      callbacks' = callbacks.replaceAt(b, callbacks[b].union(Set(t))), created' = created.replaceAt(b, created[b] + 1),
      lock' = lock, filed' = filed, keepLists, keepEnd }
    else if (me.pc == "file") all {
      th' = th.replaceAt(t, { ...me, pc: "unlock" }),
      filed' = filed.replaceAt(b, me.seen), lock' = lock, callbacks' = callbacks, created' = created, keepLists, keepEnd }
    else if (me.pc == "unlock") all {
      th' = th.replaceAt(t, { ...me, pc: "check", chip: me.seen }),
      lock' = -1, filed' = filed, callbacks' = callbacks, created' = created, keepLists, keepEnd }
    else if (me.pc == "check")
      if (me.left == 0) all { th' = th.replaceAt(t, { ...me, pc: "done" }), keepReg, keepLists, keepEnd }
      else if (listLock.get(me.chip) == -1 or not(safe)) all {
        th' = th.replaceAt(t, { ...me, pc: "read" }), lists' = lists, listLock' = listLock.set(me.chip, t), keepReg, keepEnd }
      else idle
    else if (me.pc == "read") all {
      th' = th.replaceAt(t, { ...me, pc: "write", known: lists.get(me.chip) }), keepReg, keepLists, keepEnd }
    else if (me.pc == "write") all {
      th' = th.replaceAt(t, { ...me, pc: "check", left: me.left - 1, known: Set() }),
      lists' = lists.set(me.chip, me.known.union(Set(10 * t + me.left - 1))), listLock' = listLock.set(me.chip, -1), keepReg, keepEnd }
    else idle
  }
  def ready(b: int): bool = not(finished[b]) and THREADS.indices().forall(t => th[t].home == b implies th[t].pc == "done")
  action finish(b: int): bool =
    if (ready(b)) all {
      th' = th, keepReg, keepLists,
      flushed' = flushed.replaceAt(b, Set(0, 1, 2).filter(c => callbacks[b].contains(c)).map(c => lists.get(c)).flatten()),
      finished' = finished.replaceAt(b, true) }
    else idle

  action act(safe: bool): bool = {
    nondet t = 0.to(2).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet k = 0.to(4).oneOf()
    if (k == 0) finish(b) else move(t, safe)
  }
  action step = all { act(true), before' = false }
  action stepUnlocked = all { act(false), before' = false }

  // ---------- invariants
  val createdOnce = BUILDERS.indices().forall(b => created[b] <= 1)
  // all threads of a builder hold the same chip; threads of different builders never share one
  val ownChip = THREADS.indices().forall(t => THREADS.indices().forall(u =>
    (th[t].chip >= 0 and th[u].chip >= 0) implies ((th[t].chip == th[u].chip) == (th[t].home == th[u].home))))
  // a finished builder has exactly the checks asked for on its behalf
  val complete = BUILDERS.indices().forall(b => finished[b] implies
    flushed[b] == 0.to(2).filter(t => th[t].home == b).map(t => checksOf(t, 0)).flatten())
  val inv = createdOnce and ownChip and complete

  // ---------- an inductive invariant: holds initially, is kept by every step, implies the above for any number of steps
  val PCS = Set("new", "look", "make", "file", "unlock", "check", "read", "write", "done")
  def inNew(t: int): bool = Set("look", "make", "file", "unlock").contains(th[t].pc)
  def inList(t: int): bool = Set("read", "write").contains(th[t].pc)
  def inUse(t: int): bool = Set("check", "read", "write", "done").contains(th[t].pc)
  val ind = and {
    // the registry lock
    lock == -1 or THREADS.indices().exists(t => t == lock and inNew(t)),
    THREADS.indices().forall(t => inNew(t) implies lock == t),
    THREADS.indices().forall(t => and {
      th[t].left <= N and th[t].left >= 0,
      inUse(t) == (th[t].chip >= 0),
      inUse(t) implies th[t].chip == filed[th[t].home],
      th[t].chip >= -1,
      (th[t].pc == "make") implies filed[th[t].home] == -1 and created[th[t].home] == 0,
      (th[t].pc == "file") implies filed[th[t].home] == -1 and created[th[t].home] == 1 and th[t].seen == t and callbacks[th[t].home] == Set(t),
      (th[t].pc == "unlock") implies th[t].seen == filed[th[t].home] and th[t].seen >= 0,
      (th[t].pc == "done") implies th[t].left == 0,
      inList(t) implies th[t].left > 0 and listLock.get(th[t].chip) == t,
      (th[t].pc == "write") implies th[t].known == lists.get(th[t].chip),
      not(inUse(t)) implies th[t].left == N,
      (th[t].pc == "look") implies created[th[t].home] == (if (filed[th[t].home] == -1) 0 else 1),
    }),
    0.to(2).forall(c => listLock.get(c) == -1 or THREADS.indices().exists(t => t == listLock.get(c) and inList(t) and th[t].chip == c)),
    BUILDERS.indices().forall(b => and {
      filed[b] >= -1 and filed[b] <= 2,
      // a filed chip was created by a thread of this builder, once, and left its callback
      filed[b] >= 0 implies created[b] == 1 and callbacks[b] == Set(filed[b]),
      THREADS.indices().forall(t => filed[b] == t implies th[t].home == b),
      (filed[b] == -1 and not(THREADS.indices().exists(t => th[t].pc == "file" and th[t].home == b))) implies created[b] == 0 and callbacks[b] == Set(),
      filed[b] >= 0 implies lists.get(filed[b]) ==
        0.to(2).filter(t => th[t].home == b and inUse(t)).map(t => checksOf(t, th[t].left)).flatten(),
      finished[b] implies THREADS.indices().forall(t => th[t].home == b implies th[t].pc == "done"),
      finished[b] implies flushed[b] == 0.to(2).filter(t => th[t].home == b).map(t => checksOf(t, 0)).flatten(),
    }),
    0.to(2).forall(c => not(filed[0] == c or filed[1] == c) implies lists.get(c) == Set()),
    inv,
  }
  // any state that satisfies it
  action initInd = {
    nondet pc0 = PCS.oneOf()
    nondet pc1 = PCS.oneOf()
    nondet pc2 = PCS.oneOf()
    nondet h = 0.to(7).oneOf()
    nondet c0 = (-1).to(2).oneOf()
    nondet c1 = (-1).to(2).oneOf()
    nondet c2 = (-1).to(2).oneOf()
    nondet s0 = (-1).to(2).oneOf()
    nondet s1 = (-1).to(2).oneOf()
    nondet s2 = (-1).to(2).oneOf()
    nondet l0 = 0.to(N).oneOf()
    nondet l1 = 0.to(N).oneOf()
    nondet l2 = 0.to(N).oneOf()
    nondet k0 = ALL.powerset().oneOf()
    nondet k1 = ALL.powerset().oneOf()
    nondet k2 = ALL.powerset().oneOf()
    nondet lk = (-1).to(2).oneOf()
    nondet f0 = (-1).to(2).oneOf()
    nondet f1 = (-1).to(2).oneOf()
    nondet cb0 = Set(0, 1, 2).powerset().oneOf()
    nondet cb1 = Set(0, 1, 2).powerset().oneOf()
    nondet n0 = 0.to(2).oneOf()
    nondet n1 = 0.to(2).oneOf()
    nondet q0 = ALL.powerset().oneOf()
    nondet q1 = ALL.powerset().oneOf()
    nondet q2 = ALL.powerset().oneOf()
    nondet ll0 = (-1).to(2).oneOf()
    nondet ll1 = (-1).to(2).oneOf()
    nondet ll2 = (-1).to(2).oneOf()
    nondet x0 = ALL.powerset().oneOf()
    nondet x1 = ALL.powerset().oneOf()
    nondet y0 = Set(true, false).oneOf()
    nondet y1 = Set(true, false).oneOf()
    all {
      th' = [{ pc: pc0, home: h % 2, chip: c0, seen: s0, known: k0, left: l0 },
             { pc: pc1, home: (h / 2) % 2, chip: c1, seen: s1, known: k1, left: l1 },
             { pc: pc2, home: (h / 4) % 2, chip: c2, seen: s2, known: k2, left: l2 }],
      lock' = lk, filed' = [f0, f1], callbacks' = [cb0, cb1], created' = [n0, n1],
      lists' = Map(0 -> q0, 1 -> q1, 2 -> q2), listLock' = Map(0 -> ll0, 1 -> ll1, 2 -> ll2),
      flushed' = [x0, x1], finished' = [y0, y1], before' = false,
    }
  }
  action stepInd = all { act(true), before' = ind }
  val kept = before implies ind
}
