-------------------------------- MODULE MC23 ---------------------------------
(* C23: drawings of the trees that all short histories of MC17 lead to.     *)
EXTENDS MC17
=============================================================================
