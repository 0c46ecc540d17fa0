"""What each check is: level, technique, notes.  mkmanifest.py writes MANIFEST.json from it."""

TRUSTED = [
    "gvc (/verif/gvc): the verification condition generator, and its model of Go semantics",
    "golang.org/x/tools/go/ssa: the translation of the source to SSA (naive form)",
    "the Go compiler and runtime",
    "z3 4.8.12 and its newer release z3-new, cvc5 1.1.2: an obligation counts when one of them says unsat",
]
ASSUMPTIONS = [
    "int is a mathematical integer in the contracts; int32, uint32 and smaller types wrap as in Go",
    "a path which panics does not return, unless the contract says nopanic",
    "no other goroutine touches the state of a function under contract while it runs",
]
BOUNDED = "deductive verification of the functions listed in the evidence; the rest of the property by a bounded random search on the real code against independent oracles"
PROOF = "contracts on the real code, verification conditions from go/ssa discharged by z3 and cvc5"
SEARCH = "bounded random search on the real code against truth tables (stand-in for contracts)"

PROPS = {}
def p(id, level, technique, note, **kw):
    PROPS[id] = dict(level=level, technique=technique, note=note, **kw)
    if level == "exploration":
        PROPS[id].setdefault("budget", 45)

for id in "C06 C07 C08 C16 C17 C19 C20 C21".split():
    p(id, "exploration", SEARCH, "bounded: random histories and inputs compared with independent oracles; no obligation of this property is under contract yet")
p("C11", "proof", PROOF, "every constructor of logic.C and logic.S, strashing and table growth included, proved for all arguments and all circuits", proof=True,
  unverified="nothing of the gate constructors")
p("C12", "proof", PROOF, "ToCnf, ToCnfFrom and CnfSince proved for all circuits, roots and mark slices; the clause sink (inter.Adder.Add) is an interface with an assumed contract", proof=True,
  unverified="implementations of inter.Adder")
p("C13", "proof", PROOF, "Eval and Eval64 proved for all circuits and inputs, every bit position", proof=True,
  unverified="nothing of Eval and Eval64")
p("C14", "proof", PROOF, "CardSort and its sorting network proved for all inputs and bounds, by a pair of ghost assignments of the circuit; circuits are assumed to stay below 2^30 nodes", proof=True,
  unverified="nothing of logic/card.go")
p("C15", "proof", PROOF, "Roll.At proved for all sequential circuits, signals, steps and request orders: an arbitrary run of the circuit agrees with the unrolling; the circuit S is not changed after NewRoll; the unrolled circuit is assumed to stay below 2^30 nodes", proof=True,
  unverified="nothing of Roll and S")
p("C09", "exploration", BOUNDED, "headers, watches and the clause memory CDat (growth, addition, bumping, copying and compaction included) are proved for all histories; deletion policy, relocation of watches and reasons by bounded search", proof=True,
  unverified="Cdb and Cgc: relocation of watches and reasons, choice of clauses to delete; CDat.Forall, Dimacs, String")
GC = "garbage collection of learned clauses (Cdb.MaybeCompact, called by Solve and Test) keeps the invariants of the clause memory and of the watches"
INIT = "a solver starts in a state satisfying the invariants and S.Add, Assume and growth keep them"
EXT = "sync.Mutex, time, math.Exp, log, fmt.Sprintf and Ctl.Tick do not touch the state of the solver"
p("C01", "exploration", BOUNDED, "proved for all clauses, histories of Solve, Test and Untest, and assumptions: if Solve, Test or Untest returns -1, no assignment satisfies the clauses and the assumptions; propagation, conflict analysis with minimization, learning, backtracking, assuming and the solve loop are all under contract. Adding clauses, growth and garbage collection by bounded search", proof=True,
  assumptions=[GC, INIT, EXT],
  unverified="S.Add (the clause itself is stored by Cdb.Add, which is proved), NewS and growth; Cdb.MaybeCompact; Activate, Deactivate; S.Copy; GoSolve")
p("C02", "exploration", BOUNDED, "proved for all clauses and histories of Solve, Test and Untest: when Solve or Test returns 1, every variable has a value, opposite on its two literals, every clause of two or more literals has a true literal (the invariant of the watches and of blocking literals is kept by propagation, learning and backtracking), and for Solve all assumptions are true; clauses of one literal, adding clauses and garbage collection by bounded search", proof=True,
  assumptions=[GC, INIT, EXT],
  unverified="S.Add (it puts unit clauses on the trail; Cdb.Add, which stores the clauses, is proved), NewS and growth; Cdb.MaybeCompact; Activate, Deactivate; Value")
p("C03", "exploration", BOUNDED, "proved for all states Solve can leave behind: the literals Why appends are assumptions or decisions of the open tests, and no assignment satisfies the clauses and all of them; Solve leaves such a state (a conflict whose decisions are all assumptions, or a false assumption) whenever it returns -1; adding clauses and garbage collection by bounded search", proof=True,
  assumptions=[GC, INIT, EXT],
  unverified="S.Add and growth; Cdb.MaybeCompact; the recursion of finalRec is not shown to terminate")
p("C04", "exploration", BOUNDED, "proved for all states within the invariants of the trail: the literals Reasons returns are true, are earlier on the trail than the literal asked for, and every assignment that satisfies the clauses and them satisfies it; for a decision none is returned; propagation, assignment and backtracking keep those invariants; what Test reports by bounded search and by the contracts listed under C05", proof=True,
  assumptions=[GC, INIT],
  unverified="S.Add and growth; Cdb.MaybeCompact")
p("C05", "exploration", BOUNDED, "Test and Untest are proved to open and close scopes: levels and decisions of the outer scopes are kept, -1 only without a satisfying assignment, the literals returned by Test are exactly those put on the trail since; values of levels up to the target of a backtrack are kept, all others taken back; restoration of consequences by bounded search", proof=True,
  assumptions=[GC, INIT, EXT],
  unverified="S.Add and growth; Cdb.MaybeCompact; completeness of propagation")
p("C10", "exploration", BOUNDED, "the decision heap Guess (all operations, growth and copying included) and backtracking are proved to hold every variable without a value and to give the best-ranked first, and Solve is proved to answer 1 only when every variable has a value and nothing is left to propagate, for all histories; termination by bounded search", proof=True,
  assumptions=["scores of variables are not NaN and float comparison is a total order that rescaling by a positive factor keeps", GC, INIT],
  unverified="NewGuessCdb; termination of Solve")
p("C18", "proof", PROOF, "the conversions of z.Lit and z.Var and the mapping z.Vars are proved for all inputs and histories", proof=True,
  unverified="Vars.ToInners, Vars.ToOuters and the String methods")

NOT_APPLICABLE = {
    "C22": "a property of all interleavings of two goroutines over channels and a mutex: contracts on sequential functions do not express it, and no verifier with permissions for Go is installed",
    "C23": "a property of all schedules of a pool of goroutines communicating over channels: outside contracts on sequential functions, and no verifier with permissions for Go is installed",
}
