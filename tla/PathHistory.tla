------------------------------- MODULE PathHistory -------------------------------
(* The path published so far: every pose received, each with its own header.           *)
EXTENDS Integers, Sequences
Received(path, h, pose) == [header |-> h, poses |-> Append(path.poses, [header |-> h, pose |-> pose])]
NoPath == [header |-> <<>>, poses |-> <<>>]
================================================================================
