------------------------------ MODULE HeaderMC ------------------------------
(* A file's header goes through write, read and write again (a filter that copies the        *)
(* header, as the examples do) for all small headers: it never changes, opening is decided    *)
(* by the required features alone, and what a writer declares can always be opened.           *)
EXTENDS Header
CONSTANT MaxRounds
VARIABLES first, disk, mem, rounds
vars == <<first, disk, mem, rounds>>
Feats == {"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID", "LocationsOnWays", ""}
Opts(S) == {<<>>} \cup {<<x>> : x \in S}
FeatSeqs == {<<>>} \cup {<<a>> : a \in Feats} \cup {<<a, b>> : a \in Feats, b \in Feats}
Headers == [bbox : Opts({1}), req : FeatSeqs, opt : {<<>>, <<"LocationsOnWays">>}, prog : Opts({"p"}), src : {<<>>}, rts : Opts({0}), rseq : {<<>>}, rurl : Opts({""})]
Params == [bbox : Opts({1}), prog : {"", "p"}, src : {"s"}, rts : Opts({0}), rseq : Opts({0}), rurl : Opts({""}), history : BOOLEAN]
None == [bbox |-> <<>>, req |-> <<>>, opt |-> <<>>, prog |-> <<>>, src |-> <<>>, rts |-> <<>>, rseq |-> <<>>, rurl |-> <<>>]
Init == /\ first \in Headers \cup {NewHeader(p) : p \in Params}
        /\ disk = <<>> /\ mem = <<first>> /\ rounds = 0
Write == mem # <<>> /\ disk' = mem /\ mem' = <<>> /\ UNCHANGED <<first, rounds>>
Open == disk # <<>> /\ mem = <<>> /\ rounds < MaxRounds /\ CanOpen(disk[1]) /\ mem' = disk /\ rounds' = rounds + 1 /\ UNCHANGED <<first, disk>>
Refuse == disk # <<>> /\ mem = <<>> /\ ~CanOpen(disk[1]) /\ UNCHANGED vars
Next == Write \/ Open \/ Refuse
Spec == Init /\ [][Next]_vars
Unchanged == \A h \in Range(disk) \cup Range(mem) : h = first
NewOpens == \A p \in Params : CanOpen(NewHeader(p))
OptNeverMatters == \A h \in Headers : CanOpen(h) = CanOpen([h EXCEPT !.opt = <<>>])
=============================================================================
