----------------------------- MODULE DumpDamage -----------------------------
(* When a dump can be read at all. Facts about a dump d:                                        *)
(*   tables   for each of the ten tables the reader needs, [listed, exists, marker, bad]:        *)
(*            whether the table of contents names it, its file exists, the end of data marker     *)
(*            ("whole", "open": without its line feed, "none"), how many rows cannot be decoded    *)
(*   parents  <<type, id, ver, cs>> of every version        kids  <<type, id, ver>> of their rows  *)
(*   tocwhole whether the table of contents is complete                                           *)
(*   owner    <<changeset, user>>                            names  users                           *)
EXTENDS Integers, Sequences, FiniteSets
Elems(s) == {s[i] : i \in DOMAIN s}
Readable(f) == f.listed /\ f.exists /\ f.bad = 0
Cut(d) == \E t \in DOMAIN d.tables : d.tables[t].listed /\ d.tables[t].exists /\ d.tables[t].marker = "none"
Torn(d) == \E t \in DOMAIN d.tables : ~Readable(d.tables[t])
Orphans(d) == \E k \in Elems(d.kids) : ~\E p \in Elems(d.parents) : <<p[1], p[2], p[3]>> = k
NoChangeset(d) == \E p \in Elems(d.parents) : ~\E o \in Elems(d.owner) : o[1] = p[4]
NoUser(d) == \E p \in Elems(d.parents) : \E o \in Elems(d.owner) : o[1] = p[4] /\ o[2] \notin Elems(d.names)
Incomplete(d) == Cut(d) \/ Torn(d) \/ Orphans(d) \/ NoChangeset(d) \/ NoUser(d)
Doubtful(d) == ~Incomplete(d) /\ (~d.tocwhole \/ \E t \in DOMAIN d.tables : d.tables[t].marker = "open")
=============================================================================
