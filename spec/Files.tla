-------------------------------- MODULE Files --------------------------------
(* Files and folders below a working directory, and the helpers that look at   *)
(* them.  A path is the sequence of the texts between its slashes.             *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES folders, files,     \* sets of places; a place is a sequence of names
          holes               \* links to nowhere
fileVars == <<folders, files, holes>>

Begin == folders = {<<>>} /\ files = {} /\ holes = {}

Named(x) == x # "" /\ x # "."
Place(p) == SelectSeq(p, Named)
Above(w) == {SubSeq(w, 1, k) : k \in 0..Len(w)}
Front(s) == SubSeq(s, 1, Len(s) - 1)

Free(w) == Above(w) \cap (files \cup holes) = {}     \* nothing in the way of a folder

Touch(p) ==
  LET w == Place(p) IN
  /\ Front(w) \in folders
  /\ w \notin folders
  /\ files' = files \cup {w}
  /\ UNCHANGED <<folders, holes>>

(* a link to a file is a file *)
Link(p, to) ==
  LET w == Place(p) IN
  /\ Front(w) \in folders
  /\ w \notin folders \cup files \cup holes
  /\ IF Place(to) \in files THEN files' = files \cup {w} /\ UNCHANGED holes
     ELSE holes' = holes \cup {w} /\ UNCHANGED files
  /\ UNCHANGED folders

(* answers: 1 yes, 0 no, 2 an exception.  A file of that name counts as already there. *)
Right(w, got) ==
  IF Free(w) \/ w \in files THEN got = 1 ELSE got = 0

(* the folders that exist after a refused request are not judged *)
MakeAll(ps, got) ==
  LET places == {Place(ps[k]) : k \in DOMAIN ps} IN
  /\ TRUE = (\A k \in DOMAIN ps : Right(Place(ps[k]), got[k]))
  /\ folders' = folders \cup UNION {Above(w) : w \in {x \in places : Free(x)}}
  /\ UNCHANGED <<files, holes>>

Exists(p, got) ==
  /\ got = (Place(p) \in folders \cup files)
  /\ UNCHANGED fileVars

List(p, got) ==
  LET w == Place(p)
      inside == {f \in files : Len(f) = Len(w) + 1 /\ Front(f) = w}
  IN /\ TRUE = (IF w \in folders
                THEN {Place(got[k]) : k \in DOMAIN got} = inside /\ Len(got) = Cardinality(inside)
                ELSE got = <<>>)
     /\ UNCHANGED fileVars

(* the folder part of a path: everything up to and including its last slash *)
Folder(p, got) ==
  /\ got = Front(p) \o <<"">>
  /\ UNCHANGED fileVars
=============================================================================
