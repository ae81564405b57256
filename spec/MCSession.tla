----------------------------- MODULE MCSession ------------------------------
(* All histories of a small session.                                       *)
EXTENDS Session
Spec == Init /\ [][Next]_vars
=============================================================================
