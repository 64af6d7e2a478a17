------------------------------ MODULE Isolation ------------------------------
(***************************************************************************)
(* Objects that are made from the same arguments and used in any order.    *)
(* What an object shows is a function of its own past alone, and the       *)
(* arguments stay what they were.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* The steps of object o in a schedule                                     *)
Own(sched, o) == SelectSeq(sched, LAMBDA x : x = o)
(* How many of its own steps object o has taken before and at step k       *)
Age(sched, o, k) == Len(Own(SubSeq(sched, 1, k), o))
=============================================================================
