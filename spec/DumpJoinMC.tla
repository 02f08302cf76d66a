----------------------------- MODULE DumpJoinMC -----------------------------
(* All small databases: which versions exist and which child rows each has. *)
EXTENDS DumpJoin, TLC
CONSTANTS Ids, Vers, Pay
VARIABLES P, C
vars == <<jvars, P, C>>
Init == /\ P \in SUBSET (Ids \X Vers)
        /\ C \in SUBSET {c \in Ids \X Vers \X Pay : KeyOf(c) \in P}
        /\ JInit(P, C)
Next == Step /\ UNCHANGED <<P, C>>
Spec == Init /\ [][Next]_vars
(* each version once and in order, with exactly its own rows in order *)
Assembled ==
  /\ \A i \in DOMAIN out : {out[i][2][j] : j \in DOMAIN out[i][2]} = {c \in C : KeyOf(c) = out[i][1]}
  /\ \A i \in DOMAIN out : \A j \in DOMAIN out[i][2] : j > 1 => PLt(out[i][2][j - 1], out[i][2][j])
  /\ \A i \in DOMAIN out : i > 1 => PLt(out[i - 1][1], out[i][1])
  /\ (parents = <<>> => {out[i][1] : i \in DOMAIN out} = P /\ kids = <<>> /\ pending = <<>>)
=============================================================================
