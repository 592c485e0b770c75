------------------------------ MODULE Accuracy -----------------------------
(* The accuracy metric.  The state of a metric object is the data of its accepted   *)
(* calls: total and correct are defined by it alone.  A batch is a pattern of        *)
(* <<prediction, target>> label pairs repeated rep times; labels are positions in     *)
(* Labels.                                                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Labels == << "0", "-0", "1", "1.0000000001", "-1", "1e300", "NaN", "+Inf", "-Inf", "2", "3.5", "1e-100", "0.1", "0.30000000000000004", "-1e300", "7",
             (* neighbours (17,18), (19,20) .. *)
             "5", "5.000000000000001", "1e-130", "3e-130", "1e-200", "-1e-200", "1000000000000000", "1000000000000001", "123456.789", "123456.78900000002", "4e-239", "9e-239" >>
NLabels == 28
NaNL == 7
(* two infinities of the same sign: not generated (their equality is not stated) *)
PairOK(p) == ~(p[1] = p[2] /\ p[1] \in {8, 9})
LabelEq(a, b) == a # NaNL /\ (a = b \/ {a, b} = {1, 2})

Matches(pat) == Cardinality({j \in 1..Len(pat) : LabelEq(pat[j][1], pat[j][2])})

M0 == [total |-> 0, correct |-> 0]
(* kinds of calls; the rejected ones leave the counts unchanged                        *)
Rejected == << "nilnil", "nilp", "nilt", "rank0", "rank2", "rankp", "rankt", "longer", "shorter", "one", "row", "foreign" >>
Accept(m, b) == [total |-> m.total + Len(b.pat) * b.rep, correct |-> m.correct + Matches(b.pat) * b.rep]
After(m, call) == IF call.k = "ok" THEN Accept(m, call) ELSE m

(* the same by definition: from the history of a metric *)
TotalOf(hist) == FoldLeft(LAMBDA a, x : IF x.k = "ok" THEN a + Len(x.pat) * x.rep ELSE a, 0, hist)
CorrectOf(hist) == FoldLeft(LAMBDA a, x : IF x.k = "ok" THEN a + Matches(x.pat) * x.rep ELSE a, 0, hist)
Sound(m, hist) == /\ m.total = TotalOf(hist) /\ m.correct = CorrectOf(hist)
                  /\ 0 <= m.correct /\ m.correct <= m.total
=============================================================================
