------------------------------ MODULE Project ------------------------------
(* EPREM projects: directory trees, run logs, settings files and handles.

   prj[n] is what is on disk under the project name n: its settings (branch
   list and the set of settings that were given explicitly), its run
   directories and its run log.  The log is written by separate steps of each
   operation (create / mv / rm of an entry, re-keying on rename), exactly as
   the implementation does; that it agrees with the directories is an
   invariant, not a definition.
   hnd[h] is the project that the live interface h refers to.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,        \* possible project names
          Handles,      \* interfaces
          Runs,         \* run names
          BranchLists,  \* possible values of the `branches' option, sequences
          OptSets,      \* possible sets of explicitly given settings
          CopyOpts,     \* sets of settings overridden by a copy
          Kinds,        \* run kinds: "x","y" succeed, "f" fails, "m" has no config
          Selections,   \* `branches' argument of run/mv/rm, {} means all
          Patterns,     \* rm patterns
          Lifecycle,    \* TRUE: include create/copy/rename/remove
          MaxRuns       \* bound on the number of run directories

VARIABLES prj, hnd, last
vars == <<prj, hnd, last>>

Off == [on |-> FALSE]
None == "none"
New(brs, opts) == [on |-> TRUE, br |-> brs, opt |-> opts, dirs |-> {}, log |-> {}]

\* the directories that hold runs, in the order in which they are processed
Listing(p) == IF p.br = <<>> THEN <<"-">> ELSE p.br
Sel(p, bs) == IF bs = {} THEN Listing(p) ELSE SelectSeq(p.br, LAMBDA b: b \in bs)

Has(p, b, r) == \E d \in p.dirs : d.b = b /\ d.r = r
At(p, b, r) == CHOOSE d \in p.dirs : d.b = b /\ d.r = r

Matching(pat) == CASE pat = "*" -> Runs
                   [] pat = "r*" -> Runs \cap {"r1", "r2", "r3"}
                   [] pat = "?1" -> Runs \cap {"r1", "s1"}
                   [] pat = "nope" -> {}
                   [] OTHER -> {pat}

Init == /\ prj = [n \in Names |-> Off]
        /\ hnd = [h \in Handles |-> None]
        /\ last = [op |-> "init"]

-----------------------------------------------------------------------------
(* Per-branch steps, folded over the selected branches.  A refused step stops
   the operation with an error if `strict', and is skipped otherwise.         *)

RECURSIVE RunIn(_, _, _, _, _)
RunIn(p, bs, r, k, strict) ==
  IF bs = <<>> THEN [p |-> p, ok |-> TRUE]
  ELSE LET b == Head(bs) IN
       IF Has(p, b, r)
       THEN IF strict THEN [p |-> p, ok |-> FALSE]
            ELSE RunIn(p, Tail(bs), r, k, strict)
       ELSE LET made == [p EXCEPT !.dirs = @ \cup {[b |-> b, r |-> r, k |-> k]}]
                logged == IF k \in {"x", "y"}
                          THEN [made EXCEPT !.log = @ \cup {[b |-> b, r |-> r, k |-> k]}]
                          ELSE made
            IN RunIn(logged, Tail(bs), r, k, strict)

RECURSIVE MvIn(_, _, _, _, _)
MvIn(p, bs, r, q, strict) ==
  IF bs = <<>> THEN [p |-> p, ok |-> TRUE]
  ELSE LET b == Head(bs) IN
       IF ~Has(p, b, r) \/ Has(p, b, q)
       THEN IF strict THEN [p |-> p, ok |-> FALSE]
            ELSE MvIn(p, Tail(bs), r, q, strict)
       ELSE LET d == At(p, b, r)
                moved == [p EXCEPT !.dirs = (@ \ {d}) \cup {[d EXCEPT !.r = q]}]
                old == {e \in p.log : e.b = b /\ e.r = r}
                logged == [moved EXCEPT !.log = (@ \ old) \cup {[e EXCEPT !.r = q] : e \in old}]
            IN MvIn(logged, Tail(bs), r, q, strict)

Range(s) == {s[i] : i \in DOMAIN s}
RmIn(p, bs, pat) ==
  LET gone == {d \in p.dirs : d.b \in Range(bs) /\ d.r \in Matching(pat)}
  IN [p EXCEPT !.dirs = @ \ gone,
               !.log = {e \in @ : \A d \in gone : ~(d.b = e.b /\ d.r = e.r)}]

-----------------------------------------------------------------------------
Drop(n) == [h \in Handles |-> IF hnd[h] = n THEN None ELSE hnd[h]]

\* Interface(n) or Interface(n, branches=.., <settings>)
Create(h, n, brs, opts) ==
  LET plain == brs = <<>> /\ opts = {} IN
  /\ IF ~prj[n].on
     THEN /\ prj' = [prj EXCEPT ![n] = New(brs, opts)]
          /\ hnd' = [hnd EXCEPT ![h] = n]
     ELSE /\ prj' = prj
          /\ hnd' = IF plain THEN [hnd EXCEPT ![h] = n] ELSE hnd
  /\ last' = [op |-> "create", h |-> h, n |-> n, br |-> brs, opt |-> opts,
              ok |-> plain \/ ~prj[n].on]

\* Interface(n, copy=m, <settings>)
Copy(h, n, m, brs, opts) ==
  LET ok == prj[m].on /\ ~prj[n].on IN
  /\ IF ok
     THEN /\ prj' = [prj EXCEPT ![n] = New(IF brs = <<>> THEN prj[m].br ELSE brs, prj[m].opt \cup opts)]
          /\ hnd' = [hnd EXCEPT ![h] = n]
     ELSE UNCHANGED <<prj, hnd>>
  /\ last' = [op |-> "copy", h |-> h, n |-> n, m |-> m, br |-> brs, opt |-> opts, ok |-> ok]

Rename(h, n, force) ==
  LET o == hnd[h]
      ok == ~prj[n].on IN
  /\ o # None
  /\ IF ok
     THEN /\ prj' = [prj EXCEPT ![n] = prj[o], ![o] = Off]
          /\ hnd' = [Drop(o) EXCEPT ![h] = n]
     ELSE UNCHANGED <<prj, hnd>>
  /\ last' = [op |-> "rename", h |-> h, n |-> n, force |-> force, ok |-> ok]

Remove(h) ==
  /\ hnd[h] # None
  /\ prj' = [prj EXCEPT ![hnd[h]] = Off]
  /\ hnd' = Drop(hnd[h])
  /\ last' = [op |-> "remove", h |-> h, ok |-> TRUE]

Run(h, r, k, bs, strict) ==
  LET o == hnd[h] IN
  /\ o # None
  /\ LET res == IF k = "m" THEN [p |-> prj[o], ok |-> FALSE]
                ELSE RunIn(prj[o], Sel(prj[o], bs), r, k, strict)
     IN /\ Cardinality(res.p.dirs) <= MaxRuns
        /\ prj' = [prj EXCEPT ![o] = res.p]
        /\ last' = [op |-> "run", h |-> h, r |-> r, k |-> k, bs |-> bs, strict |-> strict, ok |-> res.ok]
  /\ UNCHANGED hnd

Mv(h, r, q, bs, strict) ==
  LET o == hnd[h] IN
  /\ o # None
  /\ LET res == MvIn(prj[o], Sel(prj[o], bs), r, q, strict)
     IN /\ prj' = [prj EXCEPT ![o] = res.p]
        /\ last' = [op |-> "mv", h |-> h, r |-> r, q |-> q, bs |-> bs, strict |-> strict, ok |-> res.ok]
  /\ UNCHANGED hnd

Rm(h, pat, bs) ==
  LET o == hnd[h] IN
  /\ o # None
  /\ prj' = [prj EXCEPT ![o] = RmIn(@, Sel(@, bs), pat)]
  /\ last' = [op |-> "rm", h |-> h, pat |-> pat, bs |-> bs, ok |-> TRUE]
  /\ UNCHANGED hnd

Reset(h) ==
  LET o == hnd[h] IN
  /\ o # None
  /\ prj' = [prj EXCEPT ![o] = RmIn(@, Listing(@), "*")]
  /\ last' = [op |-> "reset", h |-> h, ok |-> TRUE]
  /\ UNCHANGED hnd

\* Handles are interchangeable: a handle is used for the first time only after
\* the previous ones (handles are the numbers 1..N).
Usable(h) == IF h = 1 THEN TRUE ELSE hnd[h] # None \/ hnd[h - 1] # None

LifecycleNext ==
  \E h \in Handles : Usable(h) /\
    \/ \E n \in Names, brs \in BranchLists, opts \in OptSets : Create(h, n, brs, opts)
    \/ \E n, m \in Names, brs \in BranchLists, opts \in CopyOpts : Copy(h, n, m, brs, opts)
    \/ \E n \in Names, f \in BOOLEAN : Rename(h, n, f)
    \/ Remove(h)

RunNext ==
  \E h \in Handles :
    \/ \E r \in Runs, k \in Kinds, bs \in Selections, s \in BOOLEAN : Run(h, r, k, bs, s)
    \/ \E r, q \in Runs, bs \in Selections, s \in BOOLEAN : Mv(h, r, q, bs, s)
    \/ \E pat \in Patterns, bs \in Selections : Rm(h, pat, bs)
    \/ Reset(h)

\* Without the life cycle there is one project, created and opened by all handles.
Open1 == /\ ~Lifecycle
         /\ \E h \in Handles, n \in Names, brs \in BranchLists, opts \in OptSets :
              /\ hnd[h] = None
              /\ (prj[n].on => brs = <<>> /\ opts = {})
              /\ (~prj[n].on => \A m \in Names : ~prj[m].on)
              /\ \A g \in Handles : g < h => hnd[g] # None
              /\ Create(h, n, IF prj[n].on THEN <<>> ELSE brs, opts)

Next == Open1 \/ (Lifecycle /\ LifecycleNext) \/ RunNext
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ok(d) == d.k \in {"x", "y"}

LogAgrees == \A n \in Names : prj[n].on => prj[n].log = {d \in prj[n].dirs : Ok(d)}
OnePerSlot == \A n \in Names : prj[n].on =>
                \A d, e \in prj[n].dirs : d.b = e.b /\ d.r = e.r => d = e
InBranches == \A n \in Names : prj[n].on => \A d \in prj[n].dirs : d.b \in Range(Listing(prj[n]))
HandlesLive == \A h \in Handles : hnd[h] # None => prj[hnd[h]].on

\* A refused strict operation without selected branches processed before the
\* refusal changes nothing; every operation leaves all other projects alone.
Touched(l) == IF l.op \in {"create", "copy"} THEN {l.n}
              ELSE IF l.op = "rename" THEN {l.n, hnd[l.h]}
              ELSE {hnd[l.h]}
Frame == [][\A n \in Names : n \notin Touched(last') => prj'[n] = prj[n]]_vars
NoOverwrite == [][\A n \in Names : prj[n].on /\ prj'[n].on /\ last'.op \in {"run", "mv"} =>
                    (last'.op = "run" => prj[n].dirs \subseteq prj'[n].dirs)
                    /\ Cardinality(prj'[n].dirs) >= Cardinality(prj[n].dirs)]_vars
SettingsKept == [][\A n \in Names : prj[n].on /\ prj'[n].on =>
                    prj'[n].br = prj[n].br /\ prj'[n].opt = prj[n].opt]_vars

View == <<prj, hnd>>
Emit == PrintT(ToJson([pre |-> [prj |-> prj, hnd |-> hnd], last |-> last',
                       post |-> [prj |-> prj', hnd |-> hnd']]))
=============================================================================
