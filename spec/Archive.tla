------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* Reading an archive: members are taken one after the other and parsed;   *)
(* at the end the composites are put in the order of forecast times.       *)
(* A member is [kind, fc]: kinds "good" and "long" (bytes after the frame) *)
(* parse without error, "unit" (unknown unit), "bad" and "short" do not.   *)
(* The archive is put together first (out = "filling"), then read.         *)
(* A fault [kind, at] stops the stream within member at, or behind the     *)
(* last one (at = number of members + 1).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MinMembers, MaxMembers, Kinds, Times, Faults,
  AnyOrder,    \* results in every order that the property allows, or in a single one
  Emitting

VARIABLES members, fault, i, got, out, result
vars == <<members, fault, i, got, out, result>>

Parses(m) == m.kind \in {"good", "long"}

Member == [kind : Kinds, fc : Times]

None == [kind |-> "none", at |-> 0]

Init == members = <<>> /\ fault = None /\ i = 1 /\ got = <<>> /\ out = "filling" /\ result = <<>>

AddMember == /\ out = "filling" /\ Len(members) < MaxMembers
             /\ \E m \in Member : members' = Append(members, m)
             /\ UNCHANGED <<fault, i, got, out, result>>

Seal == /\ out = "filling" /\ Len(members) >= MinMembers /\ out' = "none"
        /\ \/ "none" \in Faults /\ UNCHANGED fault
           \/ \E f \in [kind : Faults \ {"none"}, at : 1..(Len(members) + 1)] :
                 \* the stream of members itself can only be cut within a member
                 (f.kind = "tarcut" => f.at <= Len(members)) /\ fault' = f
        /\ UNCHANGED <<members, i, got, result>>

Reading == out = "none"

TakeMember == /\ Reading /\ i <= Len(members) /\ fault.at # i /\ Parses(members[i])
              /\ got' = Append(got, i) /\ i' = i + 1
              /\ UNCHANGED <<members, fault, out, result>>

Refuse == /\ Reading /\ i <= Len(members) /\ fault.at # i /\ ~Parses(members[i])
          /\ out' = "err" /\ UNCHANGED <<members, fault, i, got, result>>

Stop == /\ Reading /\ fault.at = i
        /\ out' = "err" /\ UNCHANGED <<members, fault, i, got, result>>

Sorted == SortSeq([a \in 1..Len(got) |-> a], LAMBDA a, b : members[got[a]].fc < members[got[b]].fc)

\* any order of members with equal forecast times
Orders == IF ~AnyOrder THEN {Sorted} ELSE {p \in [1..Len(got) -> 1..Len(got)] :
             /\ \A a, b \in 1..Len(got) : p[a] = p[b] => a = b
             /\ \A a \in 1..(Len(got) - 1) : members[got[p[a]]].fc <= members[got[p[a + 1]]].fc}

End == /\ Reading /\ i = Len(members) + 1 /\ fault.at # i
       /\ out' = "ok" /\ \E p \in Orders : result' = [a \in 1..Len(got) |-> got[p[a]]]
       /\ UNCHANGED <<members, fault, i, got>>

Over == out \in {"ok", "err"}

Next == AddMember \/ Seal \/ TakeMember \/ Refuse \/ Stop \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
Clean == fault.kind = "none" /\ \A m \in 1..Len(members) : Parses(members[m])

ErrorIff     == Over => (out = "err") = ~Clean
AllOrNothing == out = "err" => result = <<>>
EveryMember  == out = "ok" => Len(result) = Len(members) /\ ToSet(result) = 1..Len(members)
InOrder      == out = "ok" => \A a \in 1..(Len(result) - 1) : members[result[a]].fc <= members[result[a + 1]].fc
EmptyIsFine  == Over /\ members = <<>> /\ fault.kind = "none" => out = "ok"
Ends         == <>(Over)
\* an order exists always
CanEnd       == Reading => ENABLED Next

\* one scenario per archive: results differ only in the order of equal times
Emit == Over /\ Emitting /\ (out = "ok" => result = SortSeq(got, LAMBDA a, b : members[a].fc < members[b].fc)) =>
  PrintT("SCEN " \o ToJson([members |-> members, fault |-> fault, out |-> out]))
=============================================================================
