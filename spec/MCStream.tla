------------------------------ MODULE MCStream ------------------------------
(* All orders of asking two streams.                                       *)
EXTENDS Stream
=============================================================================
