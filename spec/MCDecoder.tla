----------------------------- MODULE MCDecoder -----------------------------
(***************************************************************************)
(* Small frames of every encoding, good and bad, with deliveries ending at *)
(* the interesting positions.  Also prints behaviours for replay (GEN).    *)
(***************************************************************************)
EXTENDS Decoder, Frames, TLC, Json, IOUtils

oneBody == <<0, 1, 249, 250, 251, 255>>
twoBody == <<0, 0, 255, 15, 44, 65, 7, 32, 1, 112, 255, 143>>
runBody == <<7, 16, 33, 10>> \o <<7, 17, 18, 10>> \o <<10>>

TheFiles == [
  one   |-> Frame("RX", <<VS(3), E1, Prec(0), INT(5), GP(2, 3), MS("<boo>")>>, oneBody),
  oneMM |-> Frame("RW", <<GP(3, 2), E1, Prec(-1), VV(60)>>, oneBody),
  two   |-> Frame("FX", <<VS(3), E1, Prec(-1), INT(5), GP(3, 2), VV(5)>>, twoBody),
  unk   |-> Frame("QQ", <<GP(3, 2)>>, twoBody),
  run   |-> Frame("PG", <<LV(<<10, -315>>), F("CS", T("0")), BG(3, 3)>>, runBody),
  trail |-> Frame("RX", <<GP(2, 3)>>, oneBody) \o <<3, 10, 80>>,
  runTr |-> Frame("PG", <<LV(<<10>>), BG(2, 3)>>, SubSeq(runBody, 1, 8)) \o <<9, 9, 10>>,
  short |-> WithLength("RX", <<GP(2, 3)>>, SubSeq(oneBody, 1, 5), 6),
  badOf |-> Frame("PG", <<LV(<<10>>), BG(2, 3)>>, <<7, 15, 33, 10, 7, 10>>),
  badRn |-> Frame("PG", <<LV(<<10>>), BG(2, 3)>>, <<7, 17, 49, 10, 7, 10>>),
  noDim |-> Frame("RX", <<VS(3)>>, oneBody),
  mism  |-> Frame("RX", <<GP(2, 4)>>, oneBody),
  noEtx |-> LET f == Frame("RX", <<GP(2, 3)>>, oneBody)
            IN SelectSeq(f, LAMBDA b : b # 3),
  tiny  |-> T("RX262115") \o <<3>>,
  empty |-> <<>> ]

Names == DOMAIN TheFiles
TheFile(f) == TheFiles[f]

\* deliveries end here
Cuts(f) == LET b == TheFiles[f]
               e == Find(b, ETX, 1, Len(b))
           IN  ({1, 21, 22, e - 1, e} \cup (e + 1)..Len(b)) \cap (0..Len(b))

MCNext == \/ Step \/ End \/ Break
          \/ \E c \in Cuts(k) : c > sent /\ Deliver(c - sent)
MCSpec == Init /\ [][MCNext]_vars /\ WF_vars(Step)
               /\ WF_vars(End \/ \E c \in Cuts(k) : c > sent /\ Deliver(c - sent))
=============================================================================
