#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script only so the text is reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","An 'unsatisfiable' answer is never wrong",
 "Whenever the solver answers 'unsatisfiable' to a solve or test request, no assignment of truth values satisfies all clauses added so far (and still active) together with the literals assumed for that request and the literals of the currently open test scopes. This holds for every history of adding, assuming, testing, untesting and solving, including asking again after an 'unsatisfiable' answer.",
 ["inputs","histories"],"all sequences of Add/Assume/Solve/Test/Untest/Activate/Deactivate calls on all literals",
 "The tests compare a few hundred generated formulas; clause learning, minimization, watch lists, clause deletion, memory compaction and backtracking must preserve entailment on every path of every history.",
 ["internal/xo/s.go","internal/xo/derive.go","internal/xo/trail.go","internal/xo/cdb.go","internal/xo/cgc.go","internal/xo/cdat.go","gini.go"],
 [("conflict-driven solve loop","internal/xo/s.go:(*S).Solve"),("clause learning by resolution","internal/xo/derive.go:(*Deriver).Derive"),("unit propagation with watches","internal/xo/trail.go:(*Trail).Prop"),("clause simplification on add","internal/xo/cdb.go:(*Cdb).Add"),("clause deletion and compaction","internal/xo/cgc.go")],
 [("Trail.D","assigned literals in order","internal/xo/trail.go"),("CDat.D","packed clause store","internal/xo/cdat.go")],["gini.Solve","gini.Test","gini.Untest"])
p("C02","A 'satisfiable' answer comes with a real model",
 "Whenever the solver answers 'satisfiable', the truth values it then reports form one total assignment, complementary on each literal and its negation, that satisfies every active clause added so far and every literal assumed for that request.",
 ["inputs","histories"],"all histories of API calls ending in a satisfiable answer",
 "Tests check models of a handful of random formulas; the claim covers every formula, every watch/trail state and every history of incremental use.",
 ["internal/xo/s.go","internal/xo/trail.go","internal/xo/vars.go","internal/xo/cdb.go"],
 [("value lookup","internal/xo/s.go:(*S).Value"),("propagation keeps watches complete","internal/xo/trail.go:(*Trail).Prop"),("decisions until every variable is set","internal/xo/s.go:(*S).Solve")],
 [("Vars.Vals","signed truth value per literal","internal/xo/vars.go")],["gini.Value"])
p("C03","Failed assumptions are a sufficient subset",
 "After an 'unsatisfiable' answer, the literals reported as the reason are all among the literals assumed for that request or in the open test scopes, and the active clauses together with just those literals are unsatisfiable.",
 ["inputs","histories"],"all histories of API calls whose last answer is unsatisfiable",
 "Tests inspect reasons for one or two formulas; final conflict analysis walks arbitrary implication graphs.",
 ["internal/xo/s.go"],
 [("final conflict analysis","internal/xo/s.go:(*S).Why"),("recursive reason walk","internal/xo/s.go:(*S).final")],
 [("assumptions","literals assumed for the last request","internal/xo/s.go")],["gini.Why"])
p("C04","Test reports only consequences and Reasons justify them",
 "Every literal reported by a test request is implied by the active clauses together with the literals assumed in the open test scopes, and the reasons reported for an implied literal are true literals which together with the active clauses imply it.",
 ["inputs","histories"],"all histories of nested test scopes",
 "Only a few fixed nested scopes are tested; the set of propagated literals depends on watch and trail state built by the whole history.",
 ["internal/xo/s.go","internal/xo/trail.go"],
 [("test scope","internal/xo/s.go:(*S).Test"),("reason clause lookup","internal/xo/s.go:(*S).Reasons")],
 [("Vars.Reasons","clause that implied a variable","internal/xo/vars.go")],["gini.Test","gini.Reasons"])
p("C05","Closing a test scope restores the enclosing scope",
 "Closing a test scope withdraws exactly the literals assumed in it and everything derived only from them: afterwards truth values, answers and implied literals are those justified by the clauses and the remaining open scopes, and no assignment made inside the closed scope survives. Solving inside a scope leaves that scope in place.",
 ["histories"],"all sequences of nested test scopes, clause additions and solve calls",
 "Tests use one or two scopes; the backtracking code has special cases (literals implied earlier than assumed) which need particular multi-scope histories.",
 ["internal/xo/s.go","internal/xo/trail.go","internal/xo/guess.go"],
 [("backtracking","internal/xo/trail.go:(*Trail).Back"),("scope close","internal/xo/s.go:(*S).Untest"),("level-0 reset before add","internal/xo/s.go:(*S).ensure0")],
 [("Trail.Levels","trail position where each decision level starts","internal/xo/trail.go")],["gini.Untest","gini.Value"])
p("C06","Activation literals switch clauses on and off",
 "A clause added under an activation literal constrains the solver exactly when that literal is assumed; after deactivation the clause never influences an answer again, no other clause is lost, and a recycled activation literal never revives a clause of its earlier use.",
 ["histories"],"all interleavings of Activate, ActivateWith, ActivationLit, Deactivate, Add, Assume and Solve",
 "Tests run one short activation history; recycling, removal of dependent learned clauses and compaction interact across histories.",
 ["internal/xo/active.go","internal/xo/cdb.go","internal/xo/cgc.go","internal/xo/s.go"],
 [("activation literal allocation","internal/xo/active.go:(*Active).Lit"),("deactivation","internal/xo/active.go:(*Active).Deactivate"),("clause removal","internal/xo/cgc.go:(*Cgc).CompactCDat")],
 [("Active.Occs","clauses per activation literal","internal/xo/active.go"),("Active.Free","recycled activation literals","internal/xo/active.go")],["gini.Activate","gini.Deactivate"])
p("C07","A copied solver is equal and independent",
 "A copy of a solver holds the same clauses, assignments and search parameters as the original at the time of copying, and no later operation on either one changes the other.",
 ["histories"],"all solver states at the time of copying and all later operations on both",
 "Tests copy one small solver; a shared slice or a forgotten field shows up only for particular sizes and later histories.",
 ["internal/xo/s.go","internal/xo/cdat.go","internal/xo/cdb.go","internal/xo/cgc.go","internal/xo/vars.go","internal/xo/trail.go","internal/xo/guess.go","internal/xo/luby.go","internal/xo/active.go","internal/xo/phases.go"],
 [("deep copy","internal/xo/s.go:(*S).Copy"),("clause store copy","internal/xo/cdat.go:(*CDat).CopyTo"),("heuristic copy","internal/xo/guess.go:(*Guess).Copy")],
 (),["gini.Copy"])
p("C08","Writing a solver out and reading it back keeps the problem",
 "Writing a solver's clauses in DIMACS format produces a well-formed file, whose header matches its contents, and which read back has exactly the satisfying assignments of the solver's active clauses; it works for every solver, including an empty one.",
 ["inputs","histories"],"all solver states reachable by API calls",
 "Tests round-trip a single formula; empty solvers, learned clauses, units, empty clauses and deactivated clauses are not sampled.",
 ["internal/xo/cdb.go","internal/xo/dimacs.go","internal/xo/cdat.go","gini.go"],
 [("writer","internal/xo/cdb.go:(*Cdb).Write"),("clause enumeration","internal/xo/cdat.go:(*CDat).Forall"),("reader to solver","internal/xo/dimacs.go")],
 (),["gini.Write","gini.NewDimacs"])
p("C09","Clause memory keeps every clause intact",
 "Storing, growing, deleting and compacting clauses in the clause memory never alters, splits, loses or duplicates the literals of a clause that is still in use, and every remembered clause location (watch lists, reasons, clause lists) keeps denoting the same clause.",
 ["inputs","histories"],"all sequences of clause additions, learned-clause deletions and compactions, all clause lengths",
 "Compaction only runs in long solves in the tests and its result is only checked through final answers.",
 ["internal/xo/cdat.go","internal/xo/cdb.go","internal/xo/cgc.go","internal/xo/chd.go","internal/xo/watch.go","internal/xo/cloc.go"],
 [("append clause","internal/xo/cdat.go:(*CDat).AddLits"),("compaction","internal/xo/cdat.go:(*CDat).Compact"),("relocation of watches and reasons","internal/xo/cgc.go:(*Cgc).CompactCDat"),("clause header packing","internal/xo/chd.go"),("watch packing","internal/xo/watch.go")],
 [("CDat.D","headers and literals of all clauses","internal/xo/cdat.go")],["gini.Write","gini.Solve"])
p("C10","No variable is ever lost to the search",
 "Every variable without a truth value is always available to be chosen as the next decision, the best-ranked one first, so an unlimited solve never stops early and always answers either 'satisfiable' or 'unsatisfiable', for every size of problem and order of growth.",
 ["inputs","histories"],"all sequences of adding variables, bumping scores, rescaling, choosing and backtracking",
 "A heap corruption shows only as a rare wrong answer or premature stop; tests check heap order on one random sequence.",
 ["internal/xo/guess.go","internal/xo/luby.go","internal/xo/s.go","internal/xo/phases.go"],
 [("priority heap","internal/xo/guess.go"),("restart sequence","internal/xo/luby.go:(*Luby).Next"),("growth","internal/xo/s.go:(*S).ensureLitCap")],
 [("Guess.vars","heap of candidate variables","internal/xo/guess.go"),("Guess.pos","position of each variable in the heap","internal/xo/guess.go")],["gini.Solve"])
p("C11","Circuit gates compute what their names say",
 "For every assignment of the inputs, the literal returned by each circuit constructor (and, or, xor, if-then-else, implication, and their n-ary forms) has exactly the truth value of that Boolean function of its arguments, whatever has been built before, and building one gate never changes the function of an existing literal.",
 ["inputs","histories"],"all argument literals and all construction histories (with structural sharing and table growth)",
 "Tests build a few dozen gates; simplification rules, hash collisions and table growth depend on the history.",
 ["logic/c.go","logic/s.go"],
 [("and with simplification and sharing","logic/c.go:(*C).And"),("derived gates","logic/c.go"),("hash chain growth","logic/c.go:(*C).grow")],
 [("C.nodes","gates by variable","logic/c.go"),("C.strash","hash table heads","logic/c.go")],["logic.C.Eval"])
p("C12","CNF conversion of a circuit is faithful",
 "The clauses produced from a circuit (whole, from given roots, or incrementally) are satisfied by every evaluation of the circuit, and in every assignment satisfying them each converted literal has the value the circuit computes from the inputs; incremental conversion over any sequence of calls emits, in total, what each root needs.",
 ["inputs","histories"],"all circuits, roots, marks and incremental call sequences",
 "Tests convert a few small circuits; sharing, marks and growth between calls are not sampled.",
 ["logic/c.go"],
 [("Tseitin clauses","logic/c.go:addAnd"),("cone of influence","logic/c.go:(*C).ToCnfFrom"),("incremental","logic/c.go:(*C).CnfSince")],
 (),["inter.Adder clauses"])
p("C13","Circuit evaluation is exact, also 64 at a time",
 "Evaluating a circuit gives every gate the value of its Boolean function of the inputs, and the 64-way evaluation agrees with 64 independent single evaluations in every bit position, constants included.",
 ["inputs"],"all circuits and input vectors, all 64 bit positions",
 "Tests compare low bit positions of random circuits.",
 ["logic/c.go"],
 [("single evaluation","logic/c.go:(*C).Eval"),("bit-parallel evaluation","logic/c.go:(*C).Eval64")],
 (),["logic.C.Eval","logic.C.Eval64"])
p("C14","Cardinality circuits count exactly",
 "For every set of input literals, every bound and every input assignment, the at-most, at-least, less-than and greater-than literals are true exactly when the number of true inputs satisfies the bound, including bounds below zero, zero, equal to and above the number of inputs.",
 ["inputs"],"all numbers of inputs, bounds and input assignments",
 "Tests try a few sizes with random inputs; the sorting network's shape depends on the size.",
 ["logic/card.go"],
 [("sorting network","logic/card.go:(*C).CardSort"),("bound to output wire","logic/card.go:(*CardSort).Leq")],
 (),["logic.CardSort"])
p("C15","Unrolling a sequential circuit follows its transition function",
 "The literal obtained for a signal at step k of an unrolled sequential circuit has, for every input sequence, the value that signal has after k steps of the transition function from the initial state, in whatever order steps and signals are requested.",
 ["inputs","histories"],"all sequential circuits, steps and request orders",
 "One test unrolls one counter; memoization across steps and signals is not exercised.",
 ["logic/roll.go","logic/s.go"],
 [("unrolling","logic/roll.go:(*Roll).At"),("latches","logic/s.go:(*S).Latch")],
 (),["logic.Roll.At"])
p("C16","AIGER reading and writing preserve the circuit",
 "A circuit written in ASCII or binary AIGER format and read back has the same inputs, latches with the same initial values and next states, outputs and properties, computing the same functions; the header counts the gates actually written and every number is coded so that it decodes to itself.",
 ["inputs"],"all circuits, including constants as outputs or next states, unreachable gates and all numbers",
 "Tests round-trip a few small circuits without constants or unreachable gates.",
 ["logic/aiger/aiger.go","logic/aiger/dfs.go"],
 [("number coding","logic/aiger/aiger.go:write7"),("writers","logic/aiger/aiger.go:(*T).WriteBinary"),("readers","logic/aiger/aiger.go:ReadBinary")],
 (),["aiger.ReadBinary","aiger.ReadAscii"])
p("C17","DIMACS input is read exactly",
 "The reader hands on exactly the literals and clauses written in a DIMACS file, in order, wherever comment lines and white space occur and however the input is split into reads; malformed numbers, stray characters and malformed problem lines are reported as errors, never silently misread.",
 ["inputs"],"all byte sequences and all splittings into reads",
 "Tests parse a few well-formed strings; chunk boundaries, consecutive comments, overflow and truncated input are not sampled.",
 ["dimacs/int.go","dimacs/cnf.go","dimacs/icnf.go","dimacs/lit.go","dimacs/cfilt.go","dimacs/solve.go"],
 [("integer reader","dimacs/int.go:readInt"),("comment filter","dimacs/cfilt.go:(*CommentFilter).Read"),("body reader","dimacs/cnf.go:readBody")],
 (),["dimacs.ReadCnf"])
p("C18","Literals and variables convert without loss",
 "Conversions between literals, variables and DIMACS integers are inverse bijections, negation is an involution that keeps the variable and flips the sign, and the variable mapping always maps a literal to the same internal literal, distinct variables to distinct ones, and back.",
 ["inputs","histories"],"all literals, variables and mapping histories",
 "Tests check a handful of literals.",
 ["z/lit.go","z/var.go","z/dv.go","z/c.go"],
 [("literal encoding","z/lit.go"),("variable mapping","z/dv.go:(*Vars).ToInner")],
 [("Vars.free","recycled internal variables","z/dv.go")],["z.Lit","z.Vars"])
p("C19","The wire protocol's numbers and models arrive unchanged",
 "Every number, literal list and truth-value block written to a protocol stream is read back identical, however the stream is cut into reads and writes, numbers above 32 bits are rejected instead of truncated, and distinct protocol extensions never share operation codes.",
 ["inputs","fault_sequences"],"all values, all splits of the byte stream, all sets of extensions",
 "Tests use a few values on unsplit buffers.",
 ["crisp/vu32io.go","crisp/proto.go","crisp/exts.go","crisp/client.go","crisp/handler.go"],
 [("variable-length integers","crisp/vu32io.go"),("extension operation ranges","crisp/exts.go:(*Exts).Install"),("model block","crisp/client.go:(*Client).ModelFor")],
 (),["crisp.Client","crisp.Server"])
p("C20","Formula generators emit the problem they name",
 "Each generator emits exactly the clauses of the problem it documents for its parameters: Php, Partition, BinCycle and PyTriples their constraints, Rand3Cnf and HardRand3Cnf clauses of the requested number and width over distinct variables, RandColor, RandGraph and RandCube colourings, graphs and cubes of the requested shape.",
 ["inputs","configurations"],"all parameters and random seeds",
 "Tests only check that generation runs or that a solver finishes.",
 ["gen/gen.go","gen/pt.go","gen/color.go","gen/rands.go","gen/cubes.go"],
 [("pigeonhole","gen/gen.go:Php"),("random clauses","gen/rands.go"),("colouring","gen/color.go:RandColor")],
 (),["inter.Adder clauses"])
p("C21","A time-limited attempt leaves no trace",
 "A solve attempt with a time limit answers correctly or says 'unknown', and a later unlimited solve of the same solver is never cut short by the earlier limit.",
 ["histories","inputs"],"all histories mixing limited and unlimited solves",
 "Needs a long solve after a limited one; tests never do that.",
 ["internal/xo/s.go","internal/xo/ctl.go","gini.go"],
 [("limited solve","internal/xo/s.go:(*S).Try"),("deadline check","internal/xo/s.go:(*S).Solve")],
 [("S.deadline","time limit of the current attempt","internal/xo/s.go")],["gini.Try","gini.Solve"])
p("C22","Pausing and stopping a background solve is safe",
 "A background solve can be paused, resumed, stopped, tested or waited for from another goroutine in any order, each call returns, and the result delivered is the solver's answer.",
 ["schedules"],"all interleavings of the solving goroutine and controlling goroutines",
 "Tests sample a few schedules.",
 ["internal/xo/ctl.go","internal/xo/s.go","inter/solve.go"],
 [("control channels","internal/xo/ctl.go")],(),["inter.Solve"])
p("C23","Parallel assumption exchange answers every request once",
 "Every request sent to a pool of solvers is answered exactly once with that request's own result, for every number of workers and every schedule.",
 ["schedules"],"all interleavings of workers",
 "Tests sample a few schedules.",
 ["ax/ax.go","ax/req.go","ax/resp.go"],
 [("request distribution","ax/ax.go")],(),["ax.T"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
