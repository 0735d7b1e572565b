-------------------------------- MODULE PoolCfg --------------------------------
(* The pools of a run; a check lays another table in its place.                 *)
Configs == {[size |-> 8, min |-> 1, max |-> 8, al |-> 2]}
=============================================================================
