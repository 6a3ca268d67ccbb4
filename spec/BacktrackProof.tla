--------------------------- MODULE BacktrackProof ---------------------------
(* Backtracking finds exactly the solutions, each once, whatever the number   *)
(* of variables and values, the order of the levels and the pruning; an       *)
(* optimizing one improves with every solution and ends with a best one.      *)
EXTENDS Backtrack, TLAPS
CONSTANTS Val

Problem == {p \in [n : Nat, dom : UNION {[1..m -> SUBSET Val] : m \in Nat}, sols : SUBSET Seq(Val), better : SUBSET (Seq(Val) \X Seq(Val)), opt : BOOLEAN] :
              /\ p.n >= 1 /\ p.dom \in [1..p.n -> SUBSET Val]
              /\ \A s \in p.sols : Len(s) = p.n /\ \A k \in 1..p.n : s[k] \in p.dom[k]
              /\ \A s, t, u \in Seq(Val) : <<s, t>> \in p.better /\ <<t, u>> \in p.better => <<s, u>> \in p.better}
Spec == BInit(Problem) /\ [][BNext]_bvars

Pending(s) == \E k \in 1..depth : /\ \A j \in 1..(k - 1) : s[j] = sub[j]
                                  /\ open[k] => s[k] \in cand[k]
TypeOK ==
  /\ pb \in Problem /\ depth \in 0..pb.n /\ sub \in Seq(Val)
  /\ Len(sub) = (IF depth = 0 THEN 0 ELSE depth - 1)
  /\ open \in [1..pb.n -> BOOLEAN] /\ cand \in [1..pb.n -> SUBSET Val]
  /\ out \subseteq Seq(Val) /\ last \in Seq(Val) /\ (out # {} => last \in out) /\ dup \in BOOLEAN /\ sunk \in BOOLEAN
Levels == \A k \in 1..pb.n : /\ k < depth => open[k]
                             /\ k > depth => ~open[k]
                             /\ ~open[k] => cand[k] = {}
                             /\ k < depth => sub[k] \notin cand[k]
Leaves == depth = pb.n /\ open[depth] => \A v \in cand[depth] : Append(sub, v) \in pb.sols
Sound == out \subseteq pb.sols
Spent == \A s \in out : ~Pending(s)
Complete == \A s \in pb.sols : s \in out \/ Pending(s) \/ ~Beats(s)
Inv == TypeOK /\ Levels /\ Leaves /\ Sound /\ Spent /\ Complete /\ ~dup /\ ~sunk

THEOREM Initial == BInit(Problem) => Inv
  BY DEF BInit, Inv, TypeOK, Levels, Leaves, Sound, Spent, Complete, Pending, Beats, Problem

USE DEF TypeOK

LEMMA ExpandKeeps == ASSUME Inv, NEW keep \in SUBSET pb.dom[depth], BExpand(keep) PROVE Inv'
<1> USE DEF Inv, BExpand
<1>0. depth \in 1..pb.n /\ keep \subseteq Val /\ pb.n \in Nat
  BY DEF Problem
<1>1. TypeOK' BY <1>0
<1>2. Levels' BY <1>0 DEF Levels
<1>3. Leaves' BY <1>0 DEF Leaves, Justified
<1>4. Spent'
  BY <1>0 DEF Spent, Pending
<1>5. Complete'
  <2> SUFFICES ASSUME NEW s \in pb.sols, s \notin out, Beats(s) PROVE Pending(s)'
    BY DEF Complete, Beats
  <2>1. PICK k \in 1..depth : (\A j \in 1..(k - 1) : s[j] = sub[j]) /\ (open[k] => s[k] \in cand[k])
    BY DEF Complete, Pending
  <2>2. CASE k # depth
    BY <2>1, <2>2, <1>0 DEF Pending
  <2>3. CASE k = depth
    <3>1. Extends(s, sub) BY <2>1, <2>3, <1>0 DEF Extends
    <3>2. s[depth] \in keep BY <3>1 DEF Justified
    <3> QED BY <2>1, <2>3, <3>2, <1>0 DEF Pending
  <2> QED BY <2>2, <2>3
<1>6. Sound' BY DEF Sound
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6

LEMMA BackKeeps == ASSUME Inv, BBack PROVE Inv'
<1> USE DEF Inv, BBack
<1>0. depth \in 1..pb.n /\ pb.n \in Nat
  BY DEF Problem
<1>a. /\ sub' \in Seq(Val) /\ Len(sub') = (IF depth = 1 THEN 0 ELSE depth - 2)
      /\ \A j \in 1..(depth - 2) : sub'[j] = sub[j]
  BY <1>0
<1>1. TypeOK' BY <1>0, <1>a
<1>2. Levels' BY <1>0, <1>a DEF Levels
<1>3. Leaves'
  <2> SUFFICES ASSUME depth - 1 = pb.n PROVE FALSE BY DEF Leaves
  <2> QED BY <1>0
<1>b. ASSUME NEW s PROVE Pending(s)' => Pending(s)
  BY <1>0, <1>a DEF Pending
<1>4. Spent'
  BY <1>b DEF Spent
<1>5. Complete'
  <2> SUFFICES ASSUME NEW s \in pb.sols, s \notin out, Beats(s) PROVE Pending(s)'
    BY DEF Complete, Beats
  <2>1. PICK k \in 1..depth : (\A j \in 1..(k - 1) : s[j] = sub[j]) /\ (open[k] => s[k] \in cand[k])
    BY DEF Complete, Pending
  <2>2. CASE k # depth
    BY <2>1, <2>2, <1>0, <1>a DEF Pending
  <2>3. CASE k = depth
    <3>1. Extends(s, sub) BY <2>1, <2>3, <1>0 DEF Extends
    <3>2. FALSE BY <3>1, <2>1, <2>3 DEF Justified
    <3> QED BY <3>2
  <2> QED BY <2>2, <2>3
<1>6. Sound' BY DEF Sound
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6

LEMMA DownKeeps == ASSUME Inv, NEW v \in cand[depth], BDown(v) PROVE Inv'
<1> USE DEF Inv, BDown
<1>0. depth \in 1..pb.n /\ depth < pb.n /\ pb.n \in Nat /\ v \in Val
  BY DEF Problem
<1>a. /\ sub' \in Seq(Val) /\ Len(sub') = depth /\ sub'[depth] = v
      /\ \A j \in 1..(depth - 1) : sub'[j] = sub[j]
  BY <1>0
<1>1. TypeOK' BY <1>0, <1>a
<1>2. Levels' BY <1>0, <1>a DEF Levels
<1>c. ~open[depth + 1] BY <1>0 DEF Levels
<1>3. Leaves' BY <1>0, <1>c DEF Leaves
<1>b. ASSUME NEW s PROVE Pending(s)' <=> Pending(s)
  <2>1. ASSUME Pending(s)' PROVE Pending(s)
    <3>1. PICK k \in 1..(depth + 1) : (\A j \in 1..(k - 1) : s[j] = sub'[j]) /\ (open[k] => s[k] \in cand'[k])
      BY <2>1, <1>0 DEF Pending
    <3>2. CASE k = depth + 1
      <4>1. s[depth] = v /\ \A j \in 1..(depth - 1) : s[j] = sub[j]
        BY <3>1, <3>2, <1>0, <1>a
      <4> QED BY <4>1, <1>0 DEF Pending
    <3>3. CASE k <= depth
      BY <3>1, <3>3, <1>0, <1>a DEF Pending
    <3> QED BY <3>2, <3>3, <1>0
  <2>2. ASSUME Pending(s) PROVE Pending(s)'
    <3>1. PICK k \in 1..depth : (\A j \in 1..(k - 1) : s[j] = sub[j]) /\ (open[k] => s[k] \in cand[k])
      BY <2>2 DEF Pending
    <3>2. CASE k = depth /\ s[k] = v
      <4>1. \A j \in 1..depth : s[j] = sub'[j]
        BY <3>1, <3>2, <1>0, <1>a
      <4> QED BY <4>1, <1>c, <1>0 DEF Pending
    <3>3. CASE ~(k = depth /\ s[k] = v)
      <4>1. \A j \in 1..(k - 1) : s[j] = sub'[j] BY <3>1, <1>0, <1>a
      <4>2. open'[k] => s[k] \in cand'[k] BY <3>1, <3>3, <1>0
      <4> QED BY <4>1, <4>2, <1>0 DEF Pending
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>1, <2>2
<1>4. Spent' BY <1>b DEF Spent
<1>5. Complete' BY <1>b DEF Complete, Beats
<1>6. Sound' BY DEF Sound
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6

\* taking the last candidate at a leaf leaves every other assignment as it was
LEMMA LeafPending == ASSUME Inv, NEW v \in cand[depth], depth = pb.n, open[depth],
                            cand' = [cand EXCEPT ![depth] = @ \ {v}], UNCHANGED <<pb, depth, sub, open>>
                     PROVE /\ \A s \in Seq(Val) : Len(s) = pb.n /\ s # Append(sub, v) => (Pending(s)' <=> Pending(s))
                           /\ ~Pending(Append(sub, v))'
                           /\ Pending(Append(sub, v))
                           /\ \A s : Pending(s)' => Pending(s)
<1> USE DEF Inv
<1>0. depth \in 1..pb.n /\ pb.n \in Nat /\ v \in Val
  BY DEF Problem
<1>1. Len(sub) = depth - 1 BY <1>0
<1>2. ASSUME NEW s \in Seq(Val), Len(s) = pb.n, s # Append(sub, v), Pending(s) PROVE Pending(s)'
  <2>1. PICK k \in 1..depth : (\A j \in 1..(k - 1) : s[j] = sub[j]) /\ (open[k] => s[k] \in cand[k])
    BY <1>2 DEF Pending
  <2>2. CASE k = depth /\ s[k] = v
    <3> DEFINE t == Append(sub, v)
    <3>1. t \in Seq(Val) /\ Len(t) = pb.n BY <1>0, <1>1
    <3>2. \A j \in 1..pb.n : t[j] = s[j] BY <2>1, <2>2, <1>0, <1>1
    <3> HIDE DEF t
    <3>3. s = t BY <3>1, <3>2, <1>0, <1>2
    <3> QED BY <3>3, <1>2 DEF t
  <2>3. CASE ~(k = depth /\ s[k] = v)
    BY <2>1, <2>3, <1>0 DEF Pending
  <2> QED BY <2>2, <2>3
<1>3. ASSUME NEW s, Pending(s)' PROVE Pending(s)
  BY <1>3, <1>0 DEF Pending
<1>4. Pending(Append(sub, v))
  BY <1>0, <1>1 DEF Pending
<1>5. ~Pending(Append(sub, v))'
  <2> DEFINE t == Append(sub, v)
  <2>1. (\A j \in 1..(depth - 1) : t[j] = sub[j]) /\ t[depth] = v BY <1>0, <1>1
  <2>2. ASSUME NEW k \in 1..depth, open[k] => t[k] \in cand'[k] PROVE FALSE
    <3>1. CASE k = depth BY <2>1, <2>2, <3>1, <1>0
    <3>2. CASE k < depth
      <4>1. open[k] /\ sub[k] \notin cand[k] BY <3>2, <1>0 DEF Levels
      <4>2. t[k] = sub[k] /\ cand'[k] = cand[k] BY <2>1, <3>2, <1>0
      <4> QED BY <4>1, <4>2, <2>2
    <3> QED BY <3>1, <3>2, <1>0
  <2> QED BY <2>2 DEF Pending
<1> QED BY <1>2, <1>3, <1>4, <1>5

LEMMA SkipKeeps == ASSUME Inv, NEW v \in cand[depth], BSkip(v) PROVE Inv'
<1> USE DEF Inv, BSkip
<1>0. depth \in 1..pb.n /\ pb.n \in Nat /\ v \in Val
  BY DEF Problem
<1>1. TypeOK' BY <1>0
<1>2. Levels' BY <1>0 DEF Levels
<1>3. Leaves' BY <1>0 DEF Leaves
<1>4. Spent' BY LeafPending DEF Spent
<1>5. Complete'
  <2> SUFFICES ASSUME NEW s \in pb.sols, s \notin out, Beats(s) PROVE Pending(s)'
    BY DEF Complete, Beats
  <2>1. s # Append(sub, v) OBVIOUS
  <2>2. s \in Seq(Val) /\ Len(s) = pb.n BY DEF Problem
  <2> QED BY <2>1, <2>2, LeafPending DEF Complete
<1>6. Sound' BY DEF Sound
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6

LEMMA YieldKeeps == ASSUME Inv, NEW v \in cand[depth], BYield(v) PROVE Inv'
<1> USE DEF Inv, BYield
<1>0. depth \in 1..pb.n /\ pb.n \in Nat /\ v \in Val
  BY DEF Problem
<1> DEFINE t == Append(sub, v)
<1>a. t \in pb.sols BY DEF Leaves
<1>b. t \in Seq(Val) BY <1>0
<1>c. t \notin out BY LeafPending DEF Spent
<1>1. TypeOK' BY <1>0, <1>b
<1>2. Levels' BY <1>0 DEF Levels
<1>3. Leaves' BY <1>0 DEF Leaves
<1>4. Spent'
  BY LeafPending DEF Spent
<1>5. Complete'
  <2> SUFFICES ASSUME NEW s \in pb.sols, s # t, s \notin out, Beats(s)' PROVE Pending(s)'
    BY DEF Complete
  <2>1. s \in Seq(Val) /\ Len(s) = pb.n BY DEF Problem
  <2>2. Beats(s)
    <3> SUFFICES ASSUME pb.opt, out # {} PROVE <<s, last>> \in pb.better BY DEF Beats
    <3>1. <<s, t>> \in pb.better BY DEF Beats
    <3>2. <<t, last>> \in pb.better BY DEF Beats
    <3> QED BY <3>1, <3>2, <2>1, <1>b DEF Problem
  <2> QED BY <2>1, <2>2, LeafPending DEF Complete
<1>6. Sound' BY <1>a DEF Sound
<1>7. ~dup' BY <1>c
<1>8. ~sunk' BY DEF Beats
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8

THEOREM Always == Spec => []Inv
<1>1. ASSUME Inv, [BNext]_bvars PROVE Inv'
  <2>1. CASE UNCHANGED bvars
    BY <1>1, <2>1 DEF bvars, Inv, Levels, Leaves, Sound, Spent, Complete, Pending, Beats
  <2>2. CASE BNext
    BY <1>1, <2>2, ExpandKeeps, BackKeeps, DownKeeps, YieldKeeps, SkipKeeps DEF BNext
  <2> QED BY <1>1, <2>1, <2>2
<1> QED BY <1>1, Initial, PTL DEF Spec

THEOREM Correct == Spec => [](OnlySolutions /\ NeverTwice /\ Improves /\ AllFound /\ BestFound)
<1>1. Inv => OnlySolutions /\ NeverTwice /\ Improves
  BY DEF Inv, Sound, OnlySolutions, NeverTwice, Improves
<1>2. Inv => AllFound /\ BestFound
  <2> SUFFICES ASSUME Inv, depth = 0 PROVE \A s \in pb.sols : s \in out \/ ~Beats(s)
    BY DEF Inv, AllFound, BestFound, Beats, Sound
  <2> QED BY DEF Inv, Complete, Pending
<1> QED BY <1>1, <1>2, Always, PTL
=============================================================================
