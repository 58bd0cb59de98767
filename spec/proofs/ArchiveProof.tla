--------------------------- MODULE ArchiveProof ---------------------------
(***************************************************************************)
(* Archives of any number of members: the invariants that TLC checks for   *)
(* few members, proved with TLAPS for all.  Results in every order that    *)
(* the property allows are taken (AnyOrder).                               *)
(***************************************************************************)
EXTENDS Archive, TLAPS

ASSUME Consts == MaxMembers \in Nat /\ MinMembers \in Nat /\ AnyOrder = TRUE /\ Times \subseteq Int

FaultOK == fault = None \/ (fault.kind # "none" /\ fault.at \in 1..(Len(members) + 1))

TypeOK == /\ i \in Nat \ {0} /\ members \in Seq(Member)
          /\ out \in {"filling", "none", "ok", "err"}
          /\ got \in Seq(Nat)

Inv == /\ TypeOK
       /\ FaultOK
       /\ out = "filling" => i = 1 /\ fault = None
       /\ i <= Len(members) + 1
       /\ Len(got) = i - 1
       /\ \A a \in 1..(i - 1) : got[a] = a /\ Parses(members[a]) /\ fault.at # a
       /\ out # "ok" => result = <<>>
       /\ out = "err" => ~Clean
       /\ out = "ok" => /\ i = Len(members) + 1 /\ fault.at # i
                        /\ Len(result) = Len(members)
                        /\ \A a \in 1..Len(members) : result[a] \in 1..Len(members)
                        /\ \A a, b \in 1..Len(members) : result[a] = result[b] => a = b
                        /\ InOrder

LEMMA InitInv == Init => Inv
  BY DEF Init, Inv, TypeOK, FaultOK, None, Clean, InOrder

LEMMA StepInv == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Consts DEF Inv, TypeOK, FaultOK, None, Parses, Reading, InOrder
<1>1. CASE AddMember
  <2> PICK m \in Member : members' = Append(members, m)
    BY <1>1 DEF AddMember
  <2> out = "filling" /\ i = 1 /\ UNCHANGED <<fault, i, got, out, result>>
    BY <1>1 DEF AddMember
  <2> members' \in Seq(Member) /\ Len(members') = Len(members) + 1
    OBVIOUS
  <2> QED
    OBVIOUS
<1>2. CASE Seal
  BY <1>2 DEF Seal
<1>3. CASE TakeMember
  <2> i <= Len(members) /\ fault.at # i /\ Parses(members[i]) /\ got' = Append(got, i) /\ i' = i + 1 /\ UNCHANGED <<members, fault, out, result>> /\ out = "none"
    BY <1>3 DEF TakeMember
  <2> got' \in Seq(Nat) /\ Len(got') = i' - 1
    OBVIOUS
  <2> \A a \in 1..(i' - 1) : got'[a] = a
    OBVIOUS
  <2> QED
    OBVIOUS
<1>4. CASE Refuse
  BY <1>4 DEF Refuse, Clean
<1>5. CASE Stop
  <2> fault.kind # "none"
    BY <1>5 DEF Stop
  <2> QED
    BY <1>5 DEF Stop, Clean
<1>6. CASE End
  <2> PICK p \in Orders : result' = [a \in 1..Len(got) |-> got[p[a]]]
    BY <1>6 DEF End
  <2> out = "none" /\ i = Len(members) + 1 /\ fault.at # i /\ out' = "ok" /\ UNCHANGED <<members, fault, i, got>>
    BY <1>6 DEF End
  <2> Len(got) = Len(members) /\ \A a \in 1..Len(got) : got[a] = a
    OBVIOUS
  <2> DEFINE n == Len(members)
  <2> /\ p \in [1..n -> 1..n]
      /\ \A a, b \in 1..n : p[a] = p[b] => a = b
      /\ \A a \in 1..(n - 1) : members[got[p[a]]].fc <= members[got[p[a + 1]]].fc
    BY DEF Orders
  <2> result' = [a \in 1..n |-> p[a]] /\ Len(result') = n
    OBVIOUS
  <2> QED
    OBVIOUS
<1>7. CASE UNCHANGED vars
  BY <1>7 DEF vars, Clean
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Next

LEMMA InvImplies == Inv => ErrorIff /\ AllOrNothing /\ InOrder /\ EmptyIsFine
<1> SUFFICES ASSUME Inv PROVE ErrorIff /\ AllOrNothing /\ InOrder /\ EmptyIsFine
  OBVIOUS
<1> USE DEF Inv, TypeOK, FaultOK, None, Over, Clean, Parses
<1>1. ErrorIff
  <2>1. CASE out = "ok"
    <3> i = Len(members) + 1 /\ fault.at # i
      BY <2>1
    <3>1. ASSUME fault # None PROVE FALSE
      <4> fault.at \in 1..(Len(members) + 1)
        BY <3>1
      <4> fault.at \in 1..(i - 1)
        OBVIOUS
      <4> QED
        OBVIOUS
    <3> fault.kind = "none"
      BY <3>1
    <3> QED
      BY <2>1 DEF ErrorIff
  <2> QED
    BY <2>1 DEF ErrorIff
<1>2. AllOrNothing
  BY DEF AllOrNothing
<1>3. InOrder
  BY DEF InOrder
<1>4. EmptyIsFine
  BY DEF EmptyIsFine
<1> QED
  BY <1>1, <1>2, <1>3, <1>4

THEOREM Spec => [](ErrorIff /\ AllOrNothing /\ InOrder /\ EmptyIsFine)
<1>1. Spec => []Inv
  BY InitInv, StepInv, PTL DEF Spec
<1> QED
  BY <1>1, InvImplies, PTL
=============================================================================
