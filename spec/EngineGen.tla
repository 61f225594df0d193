----------------------------- MODULE EngineGen -----------------------------
(* Engine on programs given from outside, for model checking them and for   *)
(* generating histories (with `tlc -simulate`) that are then replayed on     *)
(* the implementation.                                                       *)
EXTENDS Engine, IOUtils

GenPrograms == JsonDeserialize(IOEnv.PROGS)
FaultOdds == atoi(IOEnv.FAULT_ODDS)
Rarely == FaultOdds > 0 /\ RandomElement(1..FaultOdds) = 1

\* In simulations a fault at every step would never let a build finish, and data would change
\* far more often than builds happen.
GenNext ==
  \/ /\ ~bs.on
     /\ \E c \in {RandomElement(1..10)} : LET
              anew == known # {} \/ tried # {} IN
        \/ (c <= 4 \/ ~Complete) /\ \E a \in Raws(prog) : \E k \in Keys \cup {0} :
              (Complete /\ c = 1 /\ DropRaw(a, k)) \/ \E v \in Values : WriteRaw(a, k, v)
        \/ c = 5 /\ Complete /\ \E cl \in Classes(prog), v \in 1..MaxVer : Bump(cl, v)
        \/ c = 6 /\ anew /\ Restart
        \/ (c >= 7 \/ (c = 5 /\ Classes(prog) = {}) \/ (c = 6 /\ ~anew)) /\ Start
  \/ bs.on /\ (NextProducer \/ Finish \/ \E p \in Prods(prog) : Discover(p))
  \/ bs.on /\ \E k \in Keys \cup {0, 1, 2} : Execute(k)
  \/ bs.on /\ \E a \in Arts(prog) : Store(a) \/ Record(a) \/ Link(a)
  \/ bs.on /\ Rarely /\ Fault
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
