From 3ef121eecf57127eec1ee6915888a29b628069f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 01/39] fix: subtraction must not negate coefficients shared
 with other expressions

---
 circuitcompiler/factorHandling.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..1dcab35 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -237,6 +237,8 @@ func addFactors(leftFactors, rightFactors factors) factors {
 	return res
 }
 func negateFactors(leftFactors factors) factors {
+	//the coefficients may be shared with other expressions, so we must not negate them in place
+	leftFactors = leftFactors.clone()
 	for i := range leftFactors {
 		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
 		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
-- 
2.43.0


From 9d9e077a344ca40736f506f4352ab4323f1609ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 02/39] fix: an equality assertion must not share its
 identifier with the product of its operands

---
 circuitcompiler/gate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..affd158 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -55,6 +55,10 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
 	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	if gate.gateType == equalityGate {
+		//the assertion a=b must not be mistaken for the multiplication a*b
+		gate.identifier = "=" + gate.identifier
+	}
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From 6ce66f780263546173879bb436a94b33436b8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 03/39] fix: accept if chains that are nested or that end a
 body

---
 circuitcompiler/circuit.go | 10 +++++++++-
 circuitcompiler/parser.go  |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index b64bbd5..c67b033 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -488,9 +488,17 @@ func (from Token) primitiveReturnfunction() (gives *function) {
 
 func splitAtIfEnd(cs []*Constraint) (inside, outside []*Constraint) {
 
+	//if chains can be nested, so we search the end that belongs to the first one
+	depth := 0
 	for i, v := range cs {
+		if v.Output.Type == IF {
+			depth++
+		}
 		if v.Output.Type == IF_ELSE_CHAIN_END {
-			return cs[:i], cs[i:]
+			depth--
+			if depth == 0 {
+				return cs[:i], cs[i:]
+			}
 		}
 	}
 	panic("unexpected reach")
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..1fdc9be 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -229,16 +229,16 @@ func (p *Parser) statementMode(tokens []Token) {
 		handeFunc(1, true, IF)
 
 		hasElseIf := false
-		for rest[0].Type == ELSE && rest[1].Type == IF {
+		for len(rest) > 1 && rest[0].Type == ELSE && rest[1].Type == IF {
 			handeFunc(2, true, ELSE)
 			hasElseIf = true
 		}
 
-		if rest[0].Type != ELSE && hasElseIf {
+		if hasElseIf && (len(rest) == 0 || rest[0].Type != ELSE) {
 			p.error("you used else if, so a else at the end is required")
 		}
 
-		if rest[0].Type == ELSE {
+		if len(rest) > 0 && rest[0].Type == ELSE {
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From bcae50e42eb40600bb4bfaba0f8917a8e5f724fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 04/39] fix: take at most one branch of an if-else chain

---
 circuitcompiler/Programm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..8d1741c 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -198,6 +198,13 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
 	for _, task := range currentCircuit.taskStack.data {
+		if task.Output.Type == IF {
+			if len(task.Inputs) != 0 && !currentCircuit.checkStaticCondition(task.Inputs[0]) {
+				continue
+			}
+			//at most one branch of an if else chain is taken
+			return currentCircuit.compile(&Constraint{Output: task.Output}, gateCollector)
+		}
 		f, returs, fkt := currentCircuit.compile(task, gateCollector)
 		if returs {
 			return f, true, fkt
-- 
2.43.0


From 8f26132c4246d8f37b6fe71528f2ac05e9bbe4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 05/39] fix: a return inside a loop body returns from the
 enclosing function

---
 circuitcompiler/Programm.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 8d1741c..4a8d111 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -254,13 +254,12 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 	case FOR:
 		//we check the condition each time we rerun the loop
 		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			content := &Constraint{
-				Output: Token{
-					Type:       FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
+			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
+			if !ex {
+				panic(fmt.Sprintf("loop body %s not declared", currentConstraint.Output.Identifier))
 			}
-			f, retu, fkt := currentCircuit.compile(content, gateCollector)
+			//a return inside the body ends the loop and the enclosing function
+			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
 				return f, true, fkt
 			}
-- 
2.43.0


From c3c2fcd397e8696f0d0358ad818a9c83ab341f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 06/39] fix: apply operator precedence and left associativity
 in expressions

---
 circuitcompiler/parser.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 1fdc9be..5c553db 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -714,10 +714,30 @@ func splitAtFirstHighestStringType(in []Token, splitAt string) (cutLeft []Token,
 	return in, nil
 }
 
-//splitAtFirstHighestTokenType takes takes a string S and a token array and splits st:
+//operatorPrecedence returns how strong an operator binds its operands. a*b+c is (a*b)+c
+func operatorPrecedence(tok Token) int {
+	switch tok.Type {
+	case AssignmentOperatorToken:
+		return 0
+	case BooleanOperatorToken:
+		return 1
+	case BinaryComperatorToken:
+		return 2
+	case BitOperatorToken:
+		return 3
+	}
+	if tok.Identifier == "+" || tok.Identifier == "-" {
+		return 4
+	}
+	return 5
+}
+
+//splitAtFirstHighestTokenType splits at the operator that has to be applied last, and that is not inside of brackets:
+//the one that binds weakest. if there are several, its the rightmost of them, since a-b-c is (a-b)-c
 func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Token, tok Token, cutRight []Token) {
 	ctr1 := 0
 	ctr2 := 0
+	split := -1
 	for i := 0; i < len(in); i++ {
 		if in[i].Identifier == "(" {
 			ctr1++
@@ -733,13 +753,15 @@ func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Toke
 		}
 
 		if (in[i].Type&splitAt) != 0 && ctr1 == 0 && ctr2 == 0 {
-			if i == len(in)-1 {
-				return in[:i], in[i], cutRight
+			if split == -1 || operatorPrecedence(in[i]) <= operatorPrecedence(in[split]) {
+				split = i
 			}
-			return in[:i], in[i], in[i+1:]
 		}
 	}
-	return nil, Token{}, nil
+	if split == -1 {
+		return nil, Token{}, nil
+	}
+	return in[:split], in[split], in[split+1:]
 }
 
 //splitTokensAtFirstString takes takes a string S and a token array and splits st: abScd -> ( ab , Scd )
-- 
2.43.0


From 90f75eb96451a44b088f7c8a997f1178ea2ff827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 07/39] fix: multiplying or dividing an expression whose
 coefficients are all zero

---
 circuitcompiler/factorHandling.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 1dcab35..b3ea990 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,10 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	if gcd.Cmp(bigZero) == 0 {
+		//all coefficients are 0, there is nothing to extract
+		return f, big.NewInt(1)
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
-- 
2.43.0


From 3bd52381bb318a63208b9f4aec2adb5a8c9fc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 08/39] fix: an addition gate has to keep the coefficients of
 its operands

---
 circuitcompiler/Programm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 4a8d111..59b7489 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -437,11 +437,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
 
+			//the sides have different coefficients in general, so we cannot extract them as we do it with products
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  addFactors(leftFactors, rightFactors),
 			}
 
 			nTok := Token{
@@ -455,7 +455,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}}
 			fres := factor{
 				typ:            nTok,
-				multiplicative: commonExtracted,
+				multiplicative: bigOne,
 			}
 			return factors{fres}, false, function{}
 		case "scalarBaseMultiply":
-- 
2.43.0


From 88f27b699d34d23517063ef3ca9f7b108f8f23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 09/39] fix: the sparse scalar product has to be reduced to a
 field element

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..0d574f6 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -181,7 +181,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From a03b032dfcc1517b4cd69e049df39258eb1f18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 10/39] fix: interpolate the sparse constraint system over its
 gates, not over its witness

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..8e38680 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From 35142353df3239c376928d7034beaa0964089f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 11/39] fix: sparse division by a constant has to terminate

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 0d574f6..e78d262 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -37,7 +37,7 @@ func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
 	rem = a.Clone()
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	for ; rem.Size() > 0 && b.Size() > 0 && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From 16d6edd7f119f5b61913eaa2b721934c02ce6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 12/39] fix: dense polynomial division by padded or longer
 divisors

---
 utils/polynomialField.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index b7dd86d..6b832ac 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -94,7 +94,14 @@ func (pf PolynomialField) MulSimple(a, b []*big.Int) []*big.Int {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 	// https://en.wikipedia.org/wiki/Division_algorithm
-	r := ArrayOfBigZeros(len(a) - len(b) + 1)
+	//the leading coefficient of the divisor must not be 0
+	for len(b) > 0 && pf.F.IsZero(pf.F.Copy(b[len(b)-1])) {
+		b = b[:len(b)-1]
+	}
+	if len(b) == 0 {
+		panic("division by the zero polynomial")
+	}
+	r := ArrayOfBigZeros(maxInt(len(a)-len(b)+1, 0))
 	rem := a
 	for len(rem) >= len(b) {
 		l := pf.F.Div(rem[len(rem)-1], b[len(b)-1])
-- 
2.43.0


From ec371e766718bd941ba102196401eb92fd6eae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 13/39] fix: proofs for programs with a single gate

---
 zkSNARK/wol19.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index e9d5d29..5252638 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -384,9 +384,10 @@ func GenerateProofs(publicInputs int, provingKey *Pk, witnessTrace []*big.Int, P
 		panic("remainder supposed to be 0")
 	}
 
-	var QxDx_div_delta = new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[0], Qx[0])
+	//the quotient is empty if the program consists of a single gate
+	var QxDx_div_delta = g1ScalarBaseMultiply(big.NewInt(0))
 
-	for i := 1; i < len(Qx); i++ {
+	for i := 0; i < len(Qx); i++ {
 		tmp := new(bn256.G1).ScalarMult(provingKey.G1.PowersX_Domain_Delta[i], Qx[i])
 		QxDx_div_delta.Add(QxDx_div_delta, tmp)
 	}
-- 
2.43.0


From 366dc5722659a9caf449e0ba232d85f89ece47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 14/39] fix: an input that is declared public twice is one
 public input

---
 circuitcompiler/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 5c553db..afb9111 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -82,7 +82,9 @@ out:
 			//fmt.Println(constraint)
 			if constraint.Output.Type == PUBLIC {
 				a := p.GetMainCircuit().resolveArrayName(constraint)
-				p.PublicInputs = append(p.PublicInputs, a)
+				if !contains(p.PublicInputs, a) {
+					p.PublicInputs = append(p.PublicInputs, a)
+				}
 			}
 			if checkSemantics {
 				constraintStack = append(constraintStack, constraint)
@@ -97,6 +99,15 @@ out:
 	return p
 }
 
+func contains(list []string, element string) bool {
+	for _, v := range list {
+		if v == element {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *Parser) statementMode(tokens []Token) {
 
 	tokens = removeLeadingAndTrailingBreaks(tokens)
-- 
2.43.0


From bb66a979281a1149d4a9b01fe3dc82b2794931b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 15/39] fix: a partially applied function must not rebind the
 functions it was loaded with

---
 circuitcompiler/Programm.go |  1 +
 circuitcompiler/circuit.go  | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 59b7489..b2edb5c 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -151,6 +151,7 @@ func (currentCircuit *function) getsLoadedWith(newInputs []*function) (allArgume
 	}
 	for i := 0; i < len(newInputs); i++ {
 		currentCircuit.functions[currentCircuit.Inputs[i]] = newInputs[i]
+		currentCircuit.markLoaded(currentCircuit.Inputs[i])
 	}
 	currentCircuit.Inputs = currentCircuit.Inputs[len(newInputs):]
 	return
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index c67b033..5ea8121 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -23,6 +23,9 @@ type function struct {
 	//this are the functions, that are defined within this function
 	functions map[string]*function
 
+	//the functions this circuit was called with. they belong to the context they were defined in
+	loaded map[string]bool
+
 	//this will stay. the concept of a taskstack is relevant
 	taskStack *watchstack
 	//lets turn this into something we only need for the semantic check
@@ -365,6 +368,11 @@ func (circ *function) flatCopy() (clone *function) {
 	//clone.functions = circ.functions
 	//clone.constraintMap = circ.constraintMap
 	for k, v := range circ.functions {
+		if circ.loaded[k] {
+			clone.functions[k] = v
+			clone.markLoaded(k)
+			continue
+		}
 		f := v.flatCopy()
 		f.Context = clone
 		clone.functions[k] = f
@@ -376,6 +384,13 @@ func (circ *function) flatCopy() (clone *function) {
 	return
 }
 
+func (circ *function) markLoaded(name string) {
+	if circ.loaded == nil {
+		circ.loaded = make(map[string]bool)
+	}
+	circ.loaded[name] = true
+}
+
 func (circ *function) snapshot() (keys []string) {
 	for k, _ := range circ.constraintMap {
 		keys = append(keys, k)
-- 
2.43.0


From 550893c8238c5d269eca7f3917e22ab9d2aa1158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 16/39] fix: do not modify a sparse polynomial while it is
 being traversed concurrently

---
 utils/sparsePolynomial.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index e78d262..cd4f898 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -20,11 +20,12 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
-	a = a.Clone()
+	//we must not modify a tree, while a goroutine is walking through it
+	r := NewAvlTree()
 	for L := range a.ChannelNodes(true) {
-		a.Put(L.Key, scalar, fq.Mul)
+		r.Insert(L.Key, fq.Mul(L.Value, scalar))
 	}
-	return a
+	return r
 }
 
 type Entry struct {
@@ -187,7 +188,8 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
-	for v := range a.ChannelNodes(true) {
+	//we must not modify a tree, while a goroutine is walking through it
+	for _, v := range a.DecendingNodes() {
 		a.Put(v.Key, w[v.Key], f.Mul)
 	}
 	return a
-- 
2.43.0


From c79dfee9eaeaa74ff497cb23fd97256e6e9b5e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 17/39] fix: executing a program must not modify it

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index b2edb5c..393a204 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -184,7 +184,8 @@ func (currentCircuit *function) resolveArrayName(c *Constraint) string {
 func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	container := newGateContainer()
-	mainCircuit := p.GetMainCircuit()
+	//executing assigns variables, so we work on a copy. this way a program can be executed repeatedly
+	mainCircuit := p.globalFunction.flatCopy().functions["main"]
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-- 
2.43.0


From 5c7e2d0247659f5bb2ce756816b763388e5e9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 18/39] fix: global variables are initialised before main runs

---
 circuitcompiler/Programm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 393a204..6d7b1b1 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -185,7 +185,12 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	container := newGateContainer()
 	//executing assigns variables, so we work on a copy. this way a program can be executed repeatedly
-	mainCircuit := p.globalFunction.flatCopy().functions["main"]
+	global := p.globalFunction.flatCopy()
+	//global variables get their initial value before main starts
+	for _, task := range global.taskStack.data {
+		global.compile(task, container)
+	}
+	mainCircuit := global.functions["main"]
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-- 
2.43.0


From 7f82c88d967a8ba50fe73bda51b4e6d03ad965dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 19/39] fix: the bits of a split value can be accessed as
 documented

---
 circuitcompiler/Programm.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 6d7b1b1..a7c3e03 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -180,6 +180,23 @@ func (currentCircuit *function) resolveArrayName(c *Constraint) string {
 	return arrayIdentifier
 }
 
+//after SPLIT(x), x[i] is the i'th bit of x, where x[0] is the least significant one
+func (currentCircuit *function) resolveBit(c *Constraint, gateCollector *gateContainer) (bit factor, exists bool) {
+	if len(c.Inputs) != 1 {
+		return
+	}
+	if _, ex := currentCircuit.findFunctionInBloodline(c.Output.Identifier); !ex {
+		return
+	}
+	index, _, _ := currentCircuit.compile(c.Inputs[0], newGateContainer())
+	value, _, _ := currentCircuit.compile(&Constraint{Output: Token{Type: IDENTIFIER_VARIABLE, Identifier: c.Output.Identifier}}, gateCollector)
+	if len(value) != 1 {
+		return
+	}
+	tok := Token{Type: ARGUMENT, Identifier: fmt.Sprintf("%v%v", index[0].typ.Identifier, value[0].typ.Identifier)}
+	return factor{typ: tok, multiplicative: bigOne}, gateCollector.contains(tok.Identifier)
+}
+
 //Execute runs on a program and returns a precursor for the final R1CS description
 func (p *Program) Execute() (orderedmGates []*Gate) {
 
@@ -339,9 +356,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		if con, ex := currentCircuit.findConstraintInBloodline(resolvedName); ex {
 			a, _, fkt := currentCircuit.compile(con, gateCollector)
 			return a, false, fkt
-		} else {
-			panic(fmt.Sprintf("array %s not declared", resolvedName))
 		}
+		if bit, ex := currentCircuit.resolveBit(currentConstraint, gateCollector); ex {
+			return factors{bit}, false, function{}
+		}
+		panic(fmt.Sprintf("array %s not declared", resolvedName))
 	case IF:
 		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
 			return currentCircuit.compile(&Constraint{
-- 
2.43.0


From 968cd78a3df670fe2531020aa76c1952b66214e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 20/39] fix: splitting an expression splits its value, not that
 of a single variable in it

---
 circuitcompiler/Programm.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index a7c3e03..8341ca8 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -73,6 +73,24 @@ func (g *gateContainer) Add(gate *Gate) {
 	return
 }
 
+//returns the wire which carries the value of f. If there is none, it is introduced by an addition gate
+func (g *gateContainer) wireOf(f factors) (wire Token) {
+	if len(f) == 1 && f[0].typ.Type != NumberToken && f[0].multiplicative.Cmp(bigOne) == 0 {
+		return f[0].typ
+	}
+	gate := &Gate{
+		gateType: additionGate,
+		leftIns:  f,
+	}
+	wire = Token{Type: ARGUMENT, Identifier: gate.setAndGetID()}
+	g.Add(gate)
+	gate.outIns = factors{factor{
+		typ:            wire,
+		multiplicative: bigOne,
+	}}
+	return wire
+}
+
 type MultiplicationGateSignature struct {
 	identifier      Token
 	commonExtracted *big.Int //if the multiplicationGate had a extractable factor, it will be stored here
@@ -190,10 +208,10 @@ func (currentCircuit *function) resolveBit(c *Constraint, gateCollector *gateCon
 	}
 	index, _, _ := currentCircuit.compile(c.Inputs[0], newGateContainer())
 	value, _, _ := currentCircuit.compile(&Constraint{Output: Token{Type: IDENTIFIER_VARIABLE, Identifier: c.Output.Identifier}}, gateCollector)
-	if len(value) != 1 {
+	if len(index) != 1 || len(value) == 0 {
 		return
 	}
-	tok := Token{Type: ARGUMENT, Identifier: fmt.Sprintf("%v%v", index[0].typ.Identifier, value[0].typ.Identifier)}
+	tok := Token{Type: ARGUMENT, Identifier: fmt.Sprintf("%v%v", index[0].typ.Identifier, gateCollector.wireOf(value).Identifier)}
 	return factor{typ: tok, multiplicative: bigOne}, gateCollector.contains(tok.Identifier)
 }
 
@@ -398,9 +416,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			//prepare input number Z
 			arg := currentConstraint.Inputs[0].clone()
 			in, _, _ := currentCircuit.compile(arg, gateCollector)
-			if len(in) != 1 {
-				panic("arguments in split must be pure")
-			}
+			//the bits belong to a single wire
+			wire := gateCollector.wireOf(in)
 
 			//hmm what is this actually good for
 			//sig := hashFactorsToBig(in).String()[:16]
@@ -417,12 +434,12 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				nTok := Token{
 					Type: ARGUMENT,
 					//wirst the number, then the variable, to avoid collisions
-					Identifier: fmt.Sprintf("%v%v", i, in[0].typ.Identifier),
+					Identifier: fmt.Sprintf("%v%v", i, wire.Identifier),
 				}
 				zeroOrOneGate := &Gate{
 					gateType:                zeroOrOneGate,
 					identifier:              nTok.Identifier,
-					arithmeticRepresentatnt: in[0].typ,
+					arithmeticRepresentatnt: wire,
 				}
 				gateCollector.Add(zeroOrOneGate)
 
@@ -437,7 +454,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 			sumgate := &Gate{
 				gateType:                sumCheckGate,
-				arithmeticRepresentatnt: in[0].typ,
+				arithmeticRepresentatnt: wire,
 				leftIns:                 sum,
 				noNewOutput:             true,
 			}
-- 
2.43.0


From 5ed63c3e43ae0f2df8e6915994ef18698ab84cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 21/39] fix: field operations on operands outside the canonical
 range

---
 utils/finiteField.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..e613603 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -61,6 +61,9 @@ func (fq Fq) One() *big.Int {
 
 func (fq Fq) StringToFieldElement(a string) (v *big.Int, s bool) {
 	v, s = new(big.Int).SetString(a, 10)
+	if !s {
+		return nil, false
+	}
 	return v.Mod(v, fq.Q), s
 }
 
@@ -119,6 +122,7 @@ func (fq Fq) MulScalar(base, e *big.Int) *big.Int {
 
 // Inverse returns the inverse on the Fq
 func (fq Fq) Inverse(a *big.Int) *big.Int {
+	a = fq.Copy(a)
 	if a.Cmp(bigZero) == 0 {
 		return a
 	}
@@ -141,8 +145,12 @@ func (fq Fq) Square(a *big.Int) *big.Int {
 // Exp performs the exponential over Fq
 func (fq Fq) Exp(base *big.Int, e *big.Int) *big.Int {
 	res := fq.One()
-	rem := fq.Copy(e)
+	//the exponent is an integer, not an element of the field
+	rem := new(big.Int).Abs(e)
 	exp := base
+	if e.Sign() < 0 {
+		exp = fq.Inverse(base)
+	}
 
 	for !bytes.Equal(rem.Bytes(), bigZero.Bytes()) {
 		if BigIsOdd(rem) {
@@ -173,7 +181,7 @@ func (fq Fq) ExpInt(base *big.Int, e uint) *big.Int {
 func (fq Fq) EvalPoly(v []*big.Int, x *big.Int) *big.Int {
 
 	if len(v) == 1 {
-		return v[0]
+		return fq.Copy(v[0])
 	}
 	return fq.Add(fq.Mul(fq.EvalPoly(v[1:], x), x), v[0])
 }
-- 
2.43.0


From cffe3164bf8d0b8b4dfb46d53dcbc746fbfd9eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 22/39] fix: results of dense polynomial operations must not
 share storage with operands or constants

---
 utils/polynomialField.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index 6b832ac..c369e38 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -25,7 +25,7 @@ func ArrayOfBigZeros(num int) []*big.Int {
 
 	var r = make([]*big.Int, num, num)
 	for i := 0; i < num; i++ {
-		r[i] = bigZero
+		r[i] = new(big.Int)
 	}
 	return r
 }
@@ -102,7 +102,7 @@ func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 		panic("division by the zero polynomial")
 	}
 	r := ArrayOfBigZeros(maxInt(len(a)-len(b)+1, 0))
-	rem := a
+	rem := pf.Add(a, nil)
 	for len(rem) >= len(b) {
 		l := pf.F.Div(rem[len(rem)-1], b[len(b)-1])
 		pos := len(rem) - len(b)
-- 
2.43.0


From 3df5374cbf29acafe8c84c24f6d6f318773bd8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 23/39] fix: removing an absent key must not drop entries of
 the ordered map

---
 utils/avl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index bcf8bc9..c936bc0 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -468,9 +468,7 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
-		return self.balance(), value, err
-	}
+	//the tree keeps its root when nothing was removed. it must not be rebalanced in that case
 	return self, value, err
 }
 
-- 
2.43.0


From cd41adb0257e9d7a2cca3fe5092d35b8530768b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 24/39] fix: multiplication by negative scalars in the pairing
 groups

---
 pairing/curve.go | 9 +++++++--
 pairing/gfp12.go | 9 +++++++--
 pairing/twist.go | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..6634404 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -230,9 +230,11 @@ func (c *curvePoint) Mul(a *curvePoint, scalar *big.Int, pool *bnPool) *curvePoi
 	sum.SetInfinity()
 	t := newCurvePoint(pool)
 
-	for i := scalar.BitLen(); i >= 0; i-- {
+	//the bits of a negative number are those of its two's complement
+	k := new(big.Int).Abs(scalar)
+	for i := k.BitLen(); i >= 0; i-- {
 		t.Double(sum, pool)
-		if scalar.Bit(i) != 0 {
+		if k.Bit(i) != 0 {
 			sum.Add(t, a, pool)
 		} else {
 			sum.Set(t)
@@ -240,6 +242,9 @@ func (c *curvePoint) Mul(a *curvePoint, scalar *big.Int, pool *bnPool) *curvePoi
 	}
 
 	c.Set(sum)
+	if scalar.Sign() < 0 {
+		c.Negative(c)
+	}
 	sum.Put(pool)
 	t.Put(pool)
 	return c
diff --git a/pairing/gfp12.go b/pairing/gfp12.go
index f084edd..26656fa 100644
--- a/pairing/gfp12.go
+++ b/pairing/gfp12.go
@@ -135,9 +135,11 @@ func (c *gfP12) Exp(a *gfP12, power *big.Int, pool *bnPool) *gfP12 {
 	sum.SetOne()
 	t := newGFp12(pool)
 
-	for i := power.BitLen() - 1; i >= 0; i-- {
+	//the bits of a negative number are those of its two's complement
+	k := new(big.Int).Abs(power)
+	for i := k.BitLen() - 1; i >= 0; i-- {
 		t.Square(sum, pool)
-		if power.Bit(i) != 0 {
+		if k.Bit(i) != 0 {
 			sum.Mul(t, a, pool)
 		} else {
 			sum.Set(t)
@@ -145,6 +147,9 @@ func (c *gfP12) Exp(a *gfP12, power *big.Int, pool *bnPool) *gfP12 {
 	}
 
 	c.Set(sum)
+	if power.Sign() < 0 {
+		c.Invert(c, pool)
+	}
 
 	sum.Put(pool)
 	t.Put(pool)
diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..05050ee 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -210,9 +210,11 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 	sum.SetInfinity()
 	t := newTwistPoint(pool)
 
-	for i := scalar.BitLen(); i >= 0; i-- {
+	//the bits of a negative number are those of its two's complement
+	k := new(big.Int).Abs(scalar)
+	for i := k.BitLen(); i >= 0; i-- {
 		t.Double(sum, pool)
-		if scalar.Bit(i) != 0 {
+		if k.Bit(i) != 0 {
 			sum.Add(t, a, pool)
 		} else {
 			sum.Set(t)
@@ -220,6 +222,9 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 	}
 
 	c.Set(sum)
+	if scalar.Sign() < 0 {
+		c.Negative(c, pool)
+	}
 	sum.Put(pool)
 	t.Put(pool)
 	return c
-- 
2.43.0


From ab9d8e89a7972e537cc01ec20701676f4814889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 25/39] fix: a failing random source is reported instead of
 ending the process

---
 utils/finiteField.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index e613603..5ad750e 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/rand"
 	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
+	"io"
 	"math/big"
 )
 
@@ -213,7 +214,8 @@ func (fq Fq) Rand() (*big.Int, error) {
 	b := make([]byte, (maxbits/8)-1)
 	// b := make([]byte, 3)
 	// b := make([]byte, 3)
-	_, err := rand.Read(b)
+	//rand.Read would terminate the process if the source fails
+	_, err := io.ReadFull(rand.Reader, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 794290a2973537db1c006caf1eaa70c022405dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 26/39] fix: doubling and negation of curve points in place

---
 pairing/curve.go |  9 +++++----
 pairing/twist.go | 12 ++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 6634404..d0a40a4 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -200,6 +200,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	f := pool.Get().Mul(e, e)
 	f.Mod(f, P)
 
+	//z first, c and a may be the same point
+	t.Mul(a.y, a.z)
+	t.Mod(t, P)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -211,10 +216,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
-
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
diff --git a/pairing/twist.go b/pairing/twist.go
index 05050ee..c31ecf1 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -182,6 +182,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	e := newGFp2(pool).Add(t, A)
 	f := newGFp2(pool).Square(e, pool)
 
+	//z first, c and a may be the same point
+	t.Mul(a.y, a.z, pool)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -192,9 +196,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
-
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
@@ -261,8 +262,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
 	c.x.Set(a.x)
-	c.y.SetZero()
-	c.y.Sub(c.y, a.y)
+	c.y.Negative(a.y)
 	c.z.Set(a.z)
-	c.t.SetZero()
+	c.t.Set(a.t)
 }
-- 
2.43.0


From 427ddd2433d2df03767b27b70c825ee02d204f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 27/39] fix: the bits of a bit must not be identified with bits
 of the original value

---
 circuitcompiler/Programm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 8341ca8..a55cc8d 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -211,7 +211,7 @@ func (currentCircuit *function) resolveBit(c *Constraint, gateCollector *gateCon
 	if len(index) != 1 || len(value) == 0 {
 		return
 	}
-	tok := Token{Type: ARGUMENT, Identifier: fmt.Sprintf("%v%v", index[0].typ.Identifier, gateCollector.wireOf(value).Identifier)}
+	tok := Token{Type: ARGUMENT, Identifier: fmt.Sprintf("%v_%v", index[0].typ.Identifier, gateCollector.wireOf(value).Identifier)}
 	return factor{typ: tok, multiplicative: bigOne}, gateCollector.contains(tok.Identifier)
 }
 
@@ -433,8 +433,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			for i := 0; i < N; i++ {
 				nTok := Token{
 					Type: ARGUMENT,
-					//wirst the number, then the variable, to avoid collisions
-					Identifier: fmt.Sprintf("%v%v", i, wire.Identifier),
+					//wirst the number, then the variable, to avoid collisions. also if the variable itself is such a bit
+					Identifier: fmt.Sprintf("%v_%v", i, wire.Identifier),
 				}
 				zeroOrOneGate := &Gate{
 					gateType:                zeroOrOneGate,
-- 
2.43.0


From aef3bf444cfd5484ff617d43263edcb2ab636443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 28/39] fix: assignments and calls in main must not add
 constraints of their own

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index a55cc8d..9ec0620 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -229,8 +229,9 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-		container.completeFunction(f)
+		//assignments and calls are no constraints by themselves, only the value main returns is completed
 		if returns {
+			container.completeFunction(f)
 			break
 		}
 	}
-- 
2.43.0


From d27ee15e10438409eaedce2feff380503fc80056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 29/39] fix: concurrent interpolations must not write the
 shared base caches at once

---
 utils/finiteField.go      | 3 +++
 utils/polynomialField.go  | 7 ++++++-
 utils/sparsePolynomial.go | 7 ++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 5ad750e..af610ed 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -6,6 +6,7 @@ import (
 	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
 	"io"
 	"math/big"
+	"sync"
 )
 
 type Fields struct {
@@ -39,6 +40,7 @@ type Fq struct {
 	Q            *big.Int // Q
 	bases        map[baseLengthPair]*AvlTree
 	basesClassic map[baseLengthPair][]*big.Int
+	basesLock    *sync.Mutex // guards bases and basesClassic
 }
 
 // NewFq generates a new Fq
@@ -47,6 +49,7 @@ func NewFq(q *big.Int) Fq {
 		q,
 		make(map[baseLengthPair]*AvlTree),
 		make(map[baseLengthPair][]*big.Int),
+		new(sync.Mutex),
 	}
 }
 
diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index c369e38..642eb73 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -206,7 +206,10 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 
 	var base = func(pointPos, totalPoints int) (r []*big.Int) {
 
-		if v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		pf.F.basesLock.Lock()
+		v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		pf.F.basesLock.Unlock()
+		if ex {
 			return v
 		}
 		facBig := big.NewInt(1)
@@ -226,7 +229,9 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 			}
 		}
 		r = pf.MulScalar(r, hf)
+		pf.F.basesLock.Lock()
 		pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		pf.F.basesLock.Unlock()
 		return r
 	}
 	//if IsZeroArray(datapoints){
diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index cd4f898..f97e7d5 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -136,7 +136,10 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 	}
 	var base = func(pointPos, totalPoints int) (r *AvlTree) {
 
-		if v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		f.basesLock.Lock()
+		v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		f.basesLock.Unlock()
+		if ex {
 			return v
 		}
 		//r = NewAvlTree()
@@ -157,7 +160,9 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 		}
 		hf := f.Inverse(facBig)
 		r = f.MulSparseScalar(r, hf)
+		f.basesLock.Lock()
 		f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		f.basesLock.Unlock()
 		return r
 	}
 	//if  IsZeroArray(dataArray.ToArray(degree)){
-- 
2.43.0


From 589966396a91f13f1446bcbeafc7782487a66fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 30/39] fix: blanks at the end of a program must not yield an
 empty identifier

---
 circuitcompiler/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..b3f550e 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -395,6 +395,9 @@ func readCommentLine(l *Lexer) {
 func IdentState(l *Lexer) StateFunc {
 	peek := l.Peek()
 
+	if peek == EOFRune {
+		return nil
+	}
 	if isDigit(peek) {
 		return NumberState
 	}
-- 
2.43.0


From f6ac862291f793397da350b45f4e6ad23d352cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 31/39] fix: an unterminated string must be reported instead of
 looping forever

---
 circuitcompiler/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index b3f550e..8fbc0f2 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -411,7 +411,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-			l.Next()
+			if l.Next() == EOFRune {
+				l.Error("closing \" missing")
+				return nil
+			}
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
 		l.Next()
-- 
2.43.0


From 7ebf81cda6c171eb8e89040972b44417776403c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 32/39] fix: a character outside the language must be reported
 instead of looping forever

---
 circuitcompiler/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 8fbc0f2..571b62c 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -445,6 +445,11 @@ func IdentState(l *Lexer) StateFunc {
 	//read the next word and push it on stack
 	readIdent(l)
 
+	if l.Current() == "" {
+		l.Error(fmt.Sprintf("unexpected character %q", peek))
+		return nil
+	}
+
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
 		return ProbablyWhitespaceState
-- 
2.43.0


From dd18ab99ffb7af24e7df4261f210252c8f81a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 33/39] fix: only the last of several trailing line breaks was
 removed

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index afb9111..517b467 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -583,7 +583,7 @@ func removeTrailingBreaks(in []Token) (out []Token) {
 		return
 	}
 	if in[len(in)-1].Identifier == "\n" {
-		return removeLeadingBreaks(in[:len(in)-1])
+		return removeTrailingBreaks(in[:len(in)-1])
 	}
 	return in
 }
-- 
2.43.0


From 52dab1af7686913a8b7c627a5496dab9f52f3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 34/39] fix: sparse evaluation at a multiple of the modulus
 divided by zero or gave a wrong value

---
 utils/sparsePolynomial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index f97e7d5..8166109 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -81,9 +81,10 @@ func (fq Fq) EvalSparsePoly(poly *AvlTree, at *big.Int) (result *big.Int) {
 	if nBits < poly.Size() {
 		//fmt.Println("WARN, ur polynomial is not very sparse. a casual array type polynomial becomes more efficient at some point. not necessarily in this case however.")
 	}
+	at = fq.Copy(at)
 	if at.Cmp(bigZero) == 0 {
 		if v, b := poly.Get(0); b == nil {
-			return new(big.Int).Set(v)
+			return fq.Copy(v)
 		}
 		return big.NewInt(0)
 	}
-- 
2.43.0


From 58b11670f09f0d42d7ab8d4740cd2b306cb2ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 35/39] fix: sparse sums kept unreduced coefficients, sparse
 division did not terminate on multiples of the modulus

---
 utils/sparsePolynomial.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 8166109..3cfaabb 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -36,7 +36,8 @@ type Entry struct {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
-	rem = a.Clone()
+	//coefficients that are multiples of the modulus must not count
+	rem, b = fq.AddToSparse(a, NewAvlTree()), fq.AddToSparse(b, NewAvlTree())
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
 	for ; rem.Size() > 0 && b.Size() > 0 && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
@@ -62,16 +63,15 @@ func (a *AvlTree) Clone() *AvlTree {
 }
 
 func (fq Fq) AddToSparse(a, b *AvlTree) *AvlTree {
-	//r := NewAvlTree()
+	r := NewAvlTree()
 
-	//for v := range a.ChannelNodes(false) {
-	//	r.Put(v.Key, v.Value, fq.Add)
-	//}
-	a = a.Clone()
+	for v := range a.ChannelNodes(false) {
+		r.Put(v.Key, v.Value, fq.Add)
+	}
 	for v := range b.ChannelNodes(false) {
-		a.Put(v.Key, v.Value, fq.Add)
+		r.Put(v.Key, v.Value, fq.Add)
 	}
-	return a
+	return r
 }
 
 //EvalPoly Evaluates a sparse polynomial
@@ -122,11 +122,11 @@ func euclid(a, b uint) (q, r uint) {
 // Sub subtracts two polinomials over the Finite Field
 func (fq Fq) SubToSparse(a, b *AvlTree) *AvlTree {
 
-	a = a.Clone()
+	r := fq.AddToSparse(a, NewAvlTree())
 	for v := range b.ChannelNodes(false) {
-		a.Put(v.Key, fq.Neg(v.Value), fq.Add)
+		r.Put(v.Key, fq.Neg(v.Value), fq.Add)
 	}
-	return a
+	return r
 }
 
 // LagrangeInterpolation performs the Lagrange Interpolation / Lagrange Polynomials operation
-- 
2.43.0


From 6f1d38a0a73efd82e5d9f177ef8b24514572e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 36/39] fix: products with the same first 16 digits of their
 hash were taken for each other

---
 circuitcompiler/factorHandling.go | 2 +-
 circuitcompiler/gate.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index b3ea990..d79a432 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -83,7 +83,7 @@ func hashFactorsToBig(f factors) *big.Int {
 
 func (fac factors) factorSignature() string {
 	h := hashFactorsToBig(fac)
-	return h.String()[:16]
+	return h.String()
 }
 
 func extractGCD_andSignature(leftFactors factors) (sig MultiplicationGateSignature, extractedLeftFactors factors) {
diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index affd158..6ab14c3 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -54,7 +54,7 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.expoIns)
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
-	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	gate.identifier = new(big.Int).Xor(lr, eo).String()
 	if gate.gateType == equalityGate {
 		//the assertion a=b must not be mistaken for the multiplication a*b
 		gate.identifier = "=" + gate.identifier
-- 
2.43.0


From 98a86d5e29ef771c9a5c3dae44e060b2bd9f467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:08 +0000
Subject: [PATCH 37/39] fix: splitting a value recomposed from all bits of
 another bound its bits to the constant one

---
 circuitcompiler/gate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 6ab14c3..81087f7 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -59,6 +59,10 @@ func (gate *Gate) setAndGetID() (id string) {
 		//the assertion a=b must not be mistaken for the multiplication a*b
 		gate.identifier = "=" + gate.identifier
 	}
+	if gate.gateType == sumCheckGate {
+		//the check that bits sum up to a value must not be mistaken for the gate that computes the sum of these bits
+		gate.identifier = "sum" + gate.identifier
+	}
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From a933e89869c031ddae3403febbbd4b38acd6a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 38/39] fix: negative and unreduced inputs could not be split
 into bits

---
 circuitcompiler/ER1CS.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 8e38680..fbc1266 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -138,6 +138,11 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	return
 }
 
+//returns the bit of a field element. The inputs may be negative or exceed the field
+func bitOf(value *big.Int, position int) *big.Int {
+	return big.NewInt(int64(utils.Field.ArithmeticField.Copy(value).Bit(position)))
+}
+
 //Calculates the witness (program trace) given some extended rank 1 constraint system
 //asserts that ER1CS has been computed and is stored in the program p memory calling this function
 func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, err error) {
@@ -172,7 +177,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	for k, v := range r1cs.splitmap {
 		if set[r1cs.indexMap[k]] {
 			for bitPos, zGateIndex := range v {
-				setWitness(zGateIndex, big.NewInt(int64(witness[r1cs.indexMap[k]].Bit(bitPos))))
+				setWitness(zGateIndex, bitOf(witness[r1cs.indexMap[k]], bitPos))
 				set[zGateIndex] = true
 			}
 		}
@@ -191,7 +196,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 			if val.Cmp(zero) != 0 {
 				if !set[j] {
 					if bitPosAndFather, exists := inverseSplitmap[j]; exists {
-						bit := big.NewInt(int64(witness[bitPosAndFather[1]].Bit(int(bitPosAndFather[0]))))
+						bit := bitOf(witness[bitPosAndFather[1]], bitPosAndFather[0])
 						setWitness(j, bit)
 						set[j] = true
 						knowns[j] = bit
@@ -324,7 +329,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	for k, v := range r1cs.splitmap {
 		if set[r1cs.indexMap[k]] {
 			for bitPos, zGateIndex := range v {
-				witness[zGateIndex] = big.NewInt(int64(witness[r1cs.indexMap[k]].Bit(bitPos)))
+				witness[zGateIndex] = bitOf(witness[r1cs.indexMap[k]], bitPos)
 				set[zGateIndex] = true
 			}
 		}
@@ -341,7 +346,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 		for val := range array.ChannelNodes(true) {
 			if !set[val.Key] {
 				if bitPosAndFather, exists := inverseSplitmap[int(val.Key)]; exists {
-					bit := big.NewInt(int64(witness[bitPosAndFather[1]].Bit(int(bitPosAndFather[0]))))
+					bit := bitOf(witness[bitPosAndFather[1]], bitPosAndFather[0])
 					witness[val.Key] = bit
 					set[val.Key] = true
 					knowns.Insert(val.Key, bit)
-- 
2.43.0


From 177204f4e8081f904af5898d049cb695e94739c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 39/39] fix: an input the program does not have overwrote the
 constant one of the witness

---
 circuitcompiler/ER1CS.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index fbc1266..9e948ad 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -167,6 +167,9 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	}
 
 	for _, v := range input {
+		if r1cs.indexMap[v.identifier] == 0 {
+			return nil, errors.New(fmt.Sprintf("%v is no input of the program", v.identifier))
+		}
 		setWitness(r1cs.indexMap[v.identifier], v.value)
 		set[r1cs.indexMap[v.identifier]] = true
 	}
@@ -319,6 +322,9 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	}
 
 	for _, v := range input {
+		if r1cs.indexMap[v.identifier] == 0 {
+			return nil, errors.New(fmt.Sprintf("%v is no input of the program", v.identifier))
+		}
 		witness[r1cs.indexMap[v.identifier]] = v.value
 		set[r1cs.indexMap[v.identifier]] = true
 	}
-- 
2.43.0

