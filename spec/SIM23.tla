------------------------------- MODULE SIM23 --------------------------------
(* C23: drawings of the trees that long random histories lead to.           *)
EXTENDS SIM17
=============================================================================
