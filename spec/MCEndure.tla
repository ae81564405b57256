------------------------------ MODULE MCEndure ------------------------------
(* All arrivals, in all orders with the turns of the program.              *)
EXTENDS Endure
=============================================================================
