#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the file stays well formed).
import json,os
CC='circuitcompiler/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Compiled arithmetic means exactly what the source expression says",
 "For every arithmetic expression over inputs, constants, named variables, sums, differences, products and field divisions, a program asserting that the expression equals a further input accepts that input exactly when it is the value of the expression in the scalar field, computed with the usual operator precedence and left associativity. A wrong claimed value is rejected with an error, never accepted, and no well-formed expression (including zero, negative and cancelling coefficients) crashes the tool chain. Evaluating an expression never changes the value of any other expression of the program.",
 ["programs","inputs"],"every expression tree up to the stated size over the operators and a small set of leaves, every assignment from a set of boundary values, in every statement position",
 "The tests compile a handful of fixed programs, mostly without asserting any result; coefficient cancellation, sharing between expressions, precedence and edge constants are never sampled.",
 [CC+"factorHandling.go",CC+"Programm.go",CC+"parser.go",CC+"gate.go"],
 [("coefficient algebra on linear combinations",CC+"factorHandling.go addFactors, mulFactors, negateFactors, extractGCD"),("expression compilation",CC+"Programm.go compile"),("operator splitting",CC+"parser.go parseExpression")],
 ["acceptance or rejection by both witness solvers"])
p("C02","Branches, loops, assignments and arrays execute like the source says",
 "For every program built from variable declarations, assignments, array elements, statically decidable if / else-if / else chains (nested to any depth), counting loops and early returns, the compiled constraint system enforces exactly the values a sequential execution of the source produces: only the first branch whose condition holds is executed, loop bodies run once per iteration with the then-current variables, and a return ends its function. The comparison operators on static values follow the order of canonical field elements.",
 ["programs","inputs"],"every statement sequence up to the stated length over the statement forms and nesting shapes, and a set of inputs",
 "The tests run a few programs with one fixed nesting shape each and do not check which branch or how many iterations took effect.",
 [CC+"Programm.go",CC+"circuit.go",CC+"parser.go"],
 [("static conditions",CC+"circuit.go checkStaticCondition"),("chain and body splitting",CC+"circuit.go preCompile, splitAtIfEnd, splitAtNestedEnd"),("loop unrolling and return propagation",CC+"Programm.go execute, compile")],
 ["acceptance or rejection by both witness solvers"])
p("C03","Functions, closures, recursion and partial application are faithful",
 "Calling a function binds its parameters to the argument values and evaluates its body in the scope it was defined in: locals and parameters of one activation never leak into another or into the caller, functions passed, stored, returned or partially applied keep their defining scope, and supplying arguments one at a time gives the same result as supplying them at once. Statically bounded recursion terminates with the value the source defines, and calling with too many arguments or an undeclared name is refused.",
 ["programs","inputs"],"every program from the enumerated families of nested definitions, call shapes, argument orders, argument splittings and shadowing choices, on a set of inputs",
 "Only a few fixed higher-order programs are run by the tests, without result checks, and never two activations whose locals could be mixed up.",
 [CC+"Programm.go",CC+"circuit.go",CC+"factorHandling.go"],
 [("activation copies",CC+"circuit.go flatCopy"),("argument loading",CC+"Programm.go getsLoadedWith, compile"),("scope lookup",CC+"circuit.go findFunctionInBloodline")],
 ["acceptance or rejection by both witness solvers"])
p("C04","The constraint system alone enforces every assertion of the program",
 "Whatever values are put on the internal wires, an assignment that satisfies all constraints of a compiled program also satisfies every assertion the source states about its inputs (equality assertions, divisions as quotients whose product with the divisor is the dividend, bit decompositions). No assertion is lost, weakened or merged with a computation, regardless of how often, in which order and next to which other expressions it is stated.",
 ["programs","inputs"],"all assignments of all wires over a small prime field for every enumerated program with at most the stated number of wires",
 "Tests only look at the one witness the solver computes for honest inputs; a dropped constraint is invisible there because honest inputs still satisfy what is left.",
 [CC+"Programm.go",CC+"gate.go"],
 [("gate identity and de-duplication",CC+"gate.go setAndGetID; "+CC+"Programm.go gateContainer.Add"),("gate to constraint translation",CC+"Programm.go GatesToR1CS, GatesToSparseR1CS")],
 ["the constraint matrices handed to the setup"])
p("C05","A returned witness satisfies every constraint, and refusals are justified",
 "Whenever a witness solver returns a witness for a compiled program, the constant wire is one, every input wire carries exactly the supplied input, and every constraint holds for it modulo the group order; when the inputs admit a satisfying trace without division by zero, a witness is returned. The supplied inputs are not modified, and solving again gives the same witness on all wires that are not deliberately random.",
 ["programs","inputs"],"all enumerated programs of the other program properties (with and without the randomising gate) and all input vectors from the boundary set",
 "The tests print witnesses without checking them against the matrices, for single inputs.",
 [CC+"ER1CS.go"],[("gate-by-gate solving",CC+"ER1CS.go CalculateWitness, CalculateSparseWitness")],["the returned witness, checked against the exported matrices by independent arithmetic"])
p("C06","Dense and sparse tool chains agree",
 "For every program the dense and the sparse translation give the same constraints row by row (modulo the group order) with the same sizes, their transpositions are the exact transposes, and on the same inputs and randomness both solvers return the same witness or both refuse.",
 ["programs","inputs"],"all enumerated programs of the other program properties, with and without the randomising gate, and all input vectors from the boundary set",
 "No test compares the two; each path is run separately on a few programs.",
 [CC+"Programm.go",CC+"ER1CS.go","utils/sparsePolynomial.go","utils/polynomialField.go"],
 [("two translations of the same gates",CC+"Programm.go GatesToR1CS, GatesToSparseR1CS"),("transposition","utils/polynomialField.go Transpose; utils/sparsePolynomial.go TransposeSparse")],["exported matrices and witnesses"])
p("C07","Public inputs form the witness prefix in declaration order",
 "For every choice of main arguments (single values and arrays of any dimension) and of a public declaration, the witness starts with the constant one followed by the public inputs in the order of their declaration, each exactly once, followed by the remaining inputs in the order of the function header, and the reported public count and input list match that layout. Supplying the wrong number of inputs is refused.",
 ["programs","inputs","configurations"],"all headers up to the stated number and shape of arguments, all ordered public selections up to the stated length, distinct values on all inputs",
 "Tests use at most one public declaration and never check the order of wires.",
 [CC+"Programm.go",CC+"parser.go"],[("wire numbering",CC+"Programm.go GatesToR1CS, GatesToSparseR1CS"),("array parameter expansion",CC+"parser.go ArrayStringBuild, statementMode"),("input pairing",CC+"Programm.go CombineInputs")],["witness vectors"])
p("C08","Meaning does not depend on the layout of the source text",
 "Inserting blanks, tabs, carriage returns, blank lines or comments where the language allows them, adding redundant parentheses, writing a nested function in either of its two notations, reordering top-level functions, or moving them to an imported file leaves the compiled constraint system unchanged. Every character of the source that is not blank appears in exactly one token, and tokens come out in source order.",
 ["programs","inputs"],"every token gap of each base program with each filler, pairs of gaps, all parenthesisations, permutations of top-level functions; all short strings over the token alphabet for the tokenizer",
 "The lexer and parser tests only print results for one or two sources.",
 [CC+"lexer.go",CC+"parser.go"],[("tokenizer state machine",CC+"lexer.go"),("break and bracket handling",CC+"parser.go")],["token stream, exported matrices"])
p("C09","Compilation is deterministic and independent of history and concurrency",
 "Compiling the same source and solving for the same inputs gives the same constraint system, the same evaluation polynomials and the same witness every time, no matter which other programs were compiled, executed, solved or proved before in the same process, how often a program was translated, or which other compilations run at the same time.",
 ["histories","schedules","programs"],"all sequences of operations up to the stated depth over a set of programs chosen to exercise shared state, plus concurrent compilations",
 "Each test runs its programs once in a fixed order, and never compares a result with one obtained after a different history.",
 [CC+"factorHandling.go",CC+"Programm.go","utils/finiteField.go"],[("package level constants and caches",CC+"factorHandling.go bigOne, bigZero; utils/finiteField.go bases, basesClassic"),("goroutine pipelines",CC+"parser.go Parse; "+CC+"lexer.go Start")],["exported matrices, polynomials and witnesses"])
p("C10","Bit splitting yields the unique binary representation",
 "For every field element, splitting a value adds one boolean-constrained wire per bit of the field size and a constraint tying their weighted sum to the value, and the computed witness carries exactly the binary representation of that value, least significant bit first. No assignment with a wire outside zero and one, or with a weighted sum different from the value, satisfies the constraints.",
 ["programs","inputs"],"inputs and computed values from boundary sets (all powers of two, neighbours of the modulus, small values), every single-bit and sum corruption of the witness, programs splitting at different places and several times",
 "No stable test exercises splitting with a checked result.",
 [CC+"Programm.go",CC+"ER1CS.go"],[("split gates",CC+"Programm.go compile SPLIT"),("bit assignment",CC+"ER1CS.go CalculateWitness, CalculateSparseWitness")],["exported matrices and witnesses"])
p("C11","The base-multiplication gate is the x coordinate of the curve multiple",
 "For every scalar expression, the base-multiplication builtin denotes the affine x coordinate of the generator of the first source group times that scalar, taken in the scalar field, for direct use, in arithmetic, under assertions and in both solvers; a claimed public key is accepted exactly when it is that coordinate. Other expressions keep their values when results of the builtin are negated, scaled or combined.",
 ["programs","inputs"],"all enumerated programs using the builtin with inputs from the boundary set, against an independent affine curve implementation",
 "One fixed key pair is tested.",
 [CC+"Programm.go",CC+"ER1CS.go","pairing/bn256.go"],[("exponent gate",CC+"Programm.go scalarBaseMultiply"),("solver evaluation",CC+"ER1CS.go")],["acceptance or rejection by both witness solvers"])
p("C12","Evaluation polynomials interpolate the constraint matrices",
 "For every constraint system the conversion to polynomials gives, for each wire, polynomials of degree below the number of constraints that take the matrix entry of constraint i at point i, in the dense and in the sparse form, and the combined polynomial of an assignment is divisible by the domain polynomial exactly when the assignment satisfies all constraints, the domain polynomial being monic and vanishing exactly on the constraint points.",
 ["programs","inputs"],"all enumerated programs up to the stated number of constraints, honest witnesses and all single-wire corruptions of them",
 "Tests check interpolation on two fixed matrices.",
 [CC+"ER1CS.go","utils/polynomialField.go","utils/sparsePolynomial.go","zkSNARK/wol19.go"],[("interpolation with cached bases","utils/polynomialField.go LagrangeInterpolation; utils/sparsePolynomial.go InterpolateSparseArray"),("combination","zkSNARK/wol19.go CombinePolynomials2, CombineSparsePolynomials")],["polynomials returned by the exported conversions"])
p("C13","Field operations are arithmetic modulo the prime for all operands",
 "For every prime modulus, addition, doubling, subtraction, negation, multiplication, squaring, inversion (with zero mapped to zero), division, exponentiation, scalar products, polynomial evaluation and canonicalisation return the canonical residue of the mathematical result for all integer operands, including negative and unreduced ones, and equality and zero tests agree with congruence where documented. Operands are never modified.",
 ["inputs"],"all pairs of operands in and around the field for several small primes, boundary operands for the real group order",
 "The tests check a few fixed values.",
 ["utils/finiteField.go"],[("modular reduction after each operation","utils/finiteField.go")],["returned values"])
p("C14","Dense polynomial arithmetic obeys the ring and division laws",
 "For all coefficient vectors, sum, difference, product, scaling, linear combination and accumulation agree with polynomial arithmetic over the field, division returns a quotient and a remainder shorter than the divisor with dividend = quotient * divisor + remainder (also for padded or longer divisors), and interpolation returns the polynomial of minimal length through the given points. No operation modifies its operands, and results do not change when operands or other results are later modified by the caller.",
 ["inputs","histories"],"all coefficient vectors up to the stated length over small prime fields, all orders of interpolation requests up to the stated depth",
 "The tests use a few fixed polynomials and random ones without division edge cases.",
 ["utils/polynomialField.go"],[("schoolbook operations","utils/polynomialField.go Mul, Div, Add, Sub"),("cached Lagrange bases","utils/polynomialField.go LagrangeInterpolation")],["returned coefficient vectors"])
p("C15","Sparse polynomial arithmetic agrees with dense arithmetic",
 "For all polynomials given in sparse form, sum, difference, product, scaling, division with remainder, evaluation, interpolation, scalar products, weighting, accumulation, transposition and conversion from and to arrays give the same mathematical result as the dense operations, zero coefficients are never stored, every operation terminates, and only the documented in-place weighting modifies its argument.",
 ["inputs","histories"],"all sparse polynomials with up to the stated number of exponents over small prime fields, all pairs of them, all evaluation points",
 "The tests compare a few random polynomials.",
 ["utils/sparsePolynomial.go","utils/avl.go"],[("term-wise operations on ordered maps","utils/sparsePolynomial.go")],["returned coefficient maps"])
p("C16","The ordered map behaves like a map under every operation history",
 "After any sequence of insertions, combining updates, guarded insertions and removals, lookups, size, membership, smallest and largest element, ascending and descending traversals, array conversion and clones of the coefficient map agree with an ideal finite map in which zero values are absent, guarded insertion refuses to overwrite, and a failed operation changes nothing. Clones and their originals do not influence each other.",
 ["histories"],"all operation sequences up to the stated depth over a small key set, and all reachable tree shapes for larger key sets by breadth-first search",
 "The tests never remove from the map; rebalancing and removal interact only on particular histories.",
 ["utils/avl.go"],[("balancing and removal","utils/avl.go Put, Remove, balance, rotate_left, rotate_right, pop_node, push_node")],["all exported queries"],None,
 [("tree shape","heights and links that removals and rotations must keep searchable","utils/avl.go AvlNode")])
p("C17","Streaming traversal is complete and safe under every schedule",
 "A consumer that streams the entries of a coefficient map receives every entry exactly once in key order and then the end of the stream, whatever the interleaving of producer and consumer, also with several concurrent consumers of the same map or operations on maps that share entries; results of all coefficient-map operations are the same under every schedule. No operation modifies a map that a traversal it started is still reading.",
 ["schedules"],"all interleavings of the instrumented producer, consumer and operation steps up to the stated preemption bound, on all small tree shapes",
 "Tests run under one scheduler choice each; a wrong result needs a particular interleaving of the traversal goroutine and the consumer.",
 ["utils/avl.go","utils/sparsePolynomial.go"],[("traversal goroutine, channel and read lock","utils/avl.go ChannelNodes"),("loops over streams","utils/sparsePolynomial.go")],["received entries and results"],"source instrumentation through a build overlay generated from the current tree")
p("C18","Both source groups and the target group obey the group laws",
 "For every history of base multiplications, scalar multiplications, additions, negations and copies with aliased receivers, two ways of computing the same multiple of a generator give equal encodings in each group: multiplication is modulo the group order, the neutral element behaves neutrally, doubling by addition works, and operands other than the receiver are unchanged. Results agree with the curve and extension field equations evaluated independently.",
 ["histories","inputs"],"all operation sequences up to the stated depth on a small register machine starting from generators, neutral elements and negatives, and scalars from a boundary set",
 "The tests check a few random scalars and do not exercise neutral elements, aliasing and equal or opposite summands in combination.",
 ["pairing/bn256.go","pairing/curve.go","pairing/twist.go","pairing/gfp2.go","pairing/gfp6.go","pairing/gfp12.go"],[("Jacobian addition with special cases","pairing/curve.go Add, Double, Mul; pairing/twist.go"),("extension field arithmetic","pairing/gfp2.go, gfp6.go, gfp12.go")],["marshalled elements"])
p("C19","The pairing is bilinear, non-degenerate and consistent with its product check",
 "For all scalars a and b the pairing of a times and b times the generators equals the ab-th power of the pairing of the generators, it is one exactly when a or b is zero modulo the order, it is additive in both arguments, and the product check over a list of pairs holds exactly when the sum of the products of their logarithms is zero modulo the order.",
 ["inputs"],"all pairs of scalars from a boundary set, all lists of pairs up to the stated length over small logarithms",
 "The tests try a few random scalars; neutral elements, zero scalars and lists of length other than two are rare or absent.",
 ["pairing/optate.go","pairing/bn256.go","pairing/constants.go"],[("Miller loop and final exponentiation","pairing/optate.go"),("product check","pairing/bn256.go PairingCheck")],["marshalled target group elements, boolean result"])
p("C20","Element encodings round-trip and invalid encodings are refused",
 "Encoding and decoding is the identity for every group element including the neutral one, equal elements have equal encodings, coordinates of a decoded element equal those of the original, and decoding refuses inputs of wrong length, coordinates that are not reduced and (in the two source groups) points that are not on the curve or not in the group, instead of returning an element. Decoding reuses a receiver correctly whatever it held before.",
 ["inputs","histories"],"all elements from a boundary set of multiples, every single-bit change of their encodings, every truncation length, every previous receiver content",
 "The tests round-trip one random element per group.",
 ["pairing/bn256.go","pairing/curve.go","pairing/twist.go"],[("Marshal, Unmarshal","pairing/bn256.go"),("on-curve checks","pairing/curve.go IsOnCurve; pairing/twist.go IsOnCurve")],["returned byte strings and success flags"])
p("C21","Random sampling uses its source correctly and reports its failures",
 "For every behaviour of the random source (short reads, failure at any read, boundary bytes), sampling a group element returns a nonzero scalar below the group order together with exactly that multiple of the generator, or the error of the source, and sampling a field element returns a canonical element determined by the bytes read, or the error. A setup or witness is never built from a failed sample.",
 ["fault_sequences","inputs"],"failure injected at every read position and with every short-read pattern up to the stated number of reads, boundary byte patterns",
 "Tests always use the healthy system source.",
 ["pairing/bn256.go","utils/finiteField.go","zkSNARK/wol19.go",CC+"ER1CS.go"],[("sampling","pairing/bn256.go RandomG1, RandomG2; utils/finiteField.go Rand"),("error handling","zkSNARK/wol19.go GenerateTrustedSetup; "+CC+"ER1CS.go CalculateWitness")],["returned values and errors with a controlled source"])
p("C22","Honest proofs verify, for every program, input, public choice and randomness",
 "For every program without the curve extension, every satisfying input, every choice of public inputs leaving some wire private and every setup randomness, the proof generated from the computed witness verifies against the public part of that witness, through the dense and the sparse path alike, and for programs of a single constraint as well as of many.",
 ["programs","inputs","configurations"],"all enumerated programs up to the stated size, all public selections, boundary inputs and setup randomness, dense and sparse",
 "The proof tests of the repository do not pass reliably and try one input per program.",
 ["zkSNARK/wol19.go",CC+"ER1CS.go","utils/polynomialField.go","utils/sparsePolynomial.go"],[("setup","zkSNARK/wol19.go GenerateTrustedSetup, GenerateTrustedSetupSparse"),("prover","zkSNARK/wol19.go GenerateProofs, GenerateProof_Sparse"),("verifier","zkSNARK/wol19.go VerifyProof")],["verdict of the verifier"])
p("C23","The verifier rejects every altered statement, proof or key",
 "A proof that verifies for one public statement is rejected for every statement that differs in any position modulo the group order (if some constraint of the program depends on that position), for statements that are shorter, longer or empty, with any proof element replaced by another group element, negated, swapped with another proof's or shifted, and under the key of another setup or another program.",
 ["inputs","configurations"],"all single-position changes of the statement by boundary amounts, all length changes, all substitutions of each proof element by elements from a fixed set, all pairs of keys and proofs",
 "No test passes a wrong statement or a modified proof to the verifier.",
 ["zkSNARK/wol19.go"],[("pairing equation and length check","zkSNARK/wol19.go VerifyProof"),("binding of public inputs","zkSNARK/wol19.go RLEO_Gamma")],["verdict of the verifier"])
p("C24","No accepted proof comes out of an unsatisfying assignment",
 "For every compiled program without the curve extension and every assignment of its wires that violates some constraint, the prover refuses to produce a proof, in the dense and in the sparse path alike; in particular every single-wire corruption of an honest witness that violates a constraint is refused.",
 ["programs","inputs"],"all single-wire corruptions of honest witnesses by boundary amounts, for all enumerated programs, and all two-wire corruptions for small ones",
 "No test feeds a wrong witness to the prover.",
 ["zkSNARK/wol19.go","utils/polynomialField.go","utils/sparsePolynomial.go"],[("divisibility check","zkSNARK/wol19.go GenerateProofs, GenerateProof_Sparse")],["refusal by the prover, verdict of the verifier"])
p("C25","Proving and verifying leave keys, proofs, witnesses and statements intact",
 "Verifying gives the same verdict however often, in whatever order and alongside which other verifications it is asked, and neither proving nor verifying changes the key, the proof, the witness, the constraint system or the statement, so one key serves any sequence of proofs and verifications.",
 ["histories","schedules"],"all sequences of prove and verify operations up to the stated depth over two programs, two witnesses and mixed statements, plus concurrent verifications",
 "Tests verify each proof once.",
 ["zkSNARK/wol19.go","pairing/bn256.go","pairing/curve.go"],[("fresh accumulators","zkSNARK/wol19.go GenerateProofs, VerifyProof"),("coordinate normalisation","pairing/curve.go MakeAffine")],["verdicts, encodings of all key and proof elements before and after"])
p("C26","Linear computation is free and repeated products are shared",
 "Additions, subtractions, multiplications and divisions by constants, variable assignments and function calls add no constraint by themselves, each distinct product or quotient of two non-constant expressions adds exactly one, and a product that is written again, with its operands swapped, or with operands that are single variables scaled by constants, adds none.",
 ["programs"],"all enumerated expression pairs and statement sequences, counting constraints of the compiled system against the ideal count",
 "No test looks at the number of constraints.",
 [CC+"Programm.go",CC+"factorHandling.go",CC+"gate.go"],[("constant extraction and canonical gate identity",CC+"factorHandling.go extractConstant, factorSignature; "+CC+"gate.go setAndGetID")],["number of constraints"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
