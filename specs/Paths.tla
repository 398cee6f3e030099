-------------------------------- MODULE Paths --------------------------------
(* Finding files (P33).  Places hold entries; a search looks for an entry in the given
   places in their order, and in the current place after them.  A template is a way to
   make an entry's name from the name that is sought: the first template whose entry
   exists in the one place counts.  Entries come, go, and may be links; the current
   place changes.  What is found depends on what exists at the time of the request. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps
Places == {"p", "q", "r"}
Entries == {"a", "b"}
Kinds == {"file", "dir", "link", "dangling"}    \* link: to an existing file elsewhere
\* a place is absent, or a file, or a directory
VARIABLES place, held, cwd, last
vars == <<place, held, cwd>>
At(p) == {e \in Entries : held[<<p, e>>] # "none"}
Exists(p, e) == place[p] = "dir" /\ held[<<p, e>>] \notin {"none", "dangling"}
Spots == Places \X Entries

Init == /\ place = [x \in Places |-> IF x = "p" THEN "dir" ELSE "absent"]
        /\ held = [s \in Spots |-> "none"] /\ cwd = "p" /\ last = [op |-> "new"]
Make(p, k) == /\ place[p] = "absent" /\ place' = [place EXCEPT ![p] = k]
              /\ UNCHANGED <<held, cwd>> /\ last' = [op |-> "make", place |-> p, kind |-> k]
Put(p, e, k) == /\ place[p] = "dir" /\ held[<<p, e>>] = "none" /\ held' = [held EXCEPT ![<<p, e>>] = k]
                /\ UNCHANGED <<place, cwd>> /\ last' = [op |-> "put", place |-> p, entry |-> e, kind |-> k]
Take(p, e) == /\ held[<<p, e>>] # "none" /\ held' = [held EXCEPT ![<<p, e>>] = "none"]
              /\ UNCHANGED <<place, cwd>> /\ last' = [op |-> "take", place |-> p, entry |-> e]
Go(p) == /\ place[p] = "dir" /\ p # cwd /\ cwd' = p /\ UNCHANGED <<place, held>> /\ last' = [op |-> "go", place |-> p]

(* a search of a list of places.  An absent place that comes before the entry is found
   is refused. *)
RECURSIVE Find(_, _)
Find(e, ps) == IF ps = <<>> THEN "nothing"
               ELSE IF place[Head(ps)] = "absent" THEN "refused"
               ELSE IF Exists(Head(ps), e) THEN Head(ps) ELSE Find(e, Tail(ps))
Search(e, ps) == /\ UNCHANGED vars
                 /\ last' = [op |-> "search", entry |-> e, places |-> ps, want |-> Find(e, Append(ps, cwd))]
(* templates, in the order of the entries that they make *)
RECURSIVE First(_, _)
First(es, p) == IF es = <<>> THEN "nothing" ELSE IF Exists(p, Head(es)) THEN Head(es) ELSE First(Tail(es), p)
Template(es, p) == LET at == IF p = "" THEN cwd ELSE p IN
                   /\ UNCHANGED vars
                   /\ last' = [op |-> "template", entries |-> es, place |-> p,
                               want |-> IF place[at] = "absent" THEN "refused" ELSE First(es, at), at |-> at]
(* a place for an element: where the environment says, or in the given place, or its
   bare name.  (Where the environment names what does not exist is left open.) *)
Locate(e, p, env) == /\ UNCHANGED vars
                     /\ IF env = "" THEN TRUE ELSE Exists(env, e)
                     /\ last' = [op |-> "locate", entry |-> e, place |-> p, env |-> env,
                                 want |-> IF env # "" THEN env ELSE IF Exists(p, e) THEN p ELSE "name"]
\* the full path of an entry or place
Full(p, e, strict) == /\ UNCHANGED vars
                      /\ last' = [op |-> "full", place |-> p, entry |-> e, strict |-> strict,
                                  want |-> IF strict /\ ~ (IF e = "" THEN place[p] # "absent" ELSE Exists(p, e)) THEN "refused" ELSE "path"]
Lists == UNION {[1..n -> Places] : n \in 0..2}
Orders == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<>>}
Change == \/ \E s \in Spots, k \in Kinds : Put(s[1], s[2], k)
          \/ \E s \in Spots : Take(s[1], s[2])
          \/ \E p \in Places : Go(p)
          \/ \E p \in Places, k \in {"file", "dir"} : Make(p, k)
Next == \/ Change
        \/ \E e \in Entries, ps \in Lists : Search(e, ps)
        \/ \E es \in Orders, p \in Places \cup {""} : Template(es, p)
        \/ \E e \in Entries, p \in Places, v \in Places \cup {""} : Locate(e, p, v)
        \/ \E p \in Places, e \in Entries \cup {""}, s \in BOOLEAN : Full(p, e, s)
Spec == Init /\ [][Next]_<<vars, last>>
View == vars
Bound == Cardinality({s \in Spots : held[s] # "none"}) <= MaxOps
State(pl, h, c) == [place |-> pl, held |-> {<<s[1], s[2], h[s]>> : s \in {x \in Spots : h[x] # "none"}}, cwd |-> c]
Emit == PrintT(ToJson([pre |-> State(place, held, cwd), last |-> last', post |-> State(place', held', cwd')]))
-----------------------------------------------------------------------------
(* texts *)
\* what remains of a text before the first of the given comment marks, without blanks around it
Upto(x, marks) == LET S == {i \in DOMAIN x : x[i] \in marks} IN IF S = {} THEN x ELSE SubSeq(x, 1, (CHOOSE i \in S : \A j \in S : i <= j) - 1)
Trim(x) == LET S == {i \in DOMAIN x : x[i] # " "} IN
           IF S = {} THEN <<>> ELSE SubSeq(x, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : i >= j)
Texts == UNION {[1..n -> {"x", " ", "#", "!"}] : n \in 0..5}
ASSUME \A x \in Texts : \A m \in SUBSET {"#", "!"} :
   PrintT(ToJson([case |-> "strip", text |-> x, marks |-> m, want |-> Trim(Upto(x, m))]))
\* the pairs on the lines of a file that match: of several with one key, the last
Lines == {"", "text"} \cup {"k=1", "k=2", "n=1", "n=2"}
Key(l) == IF l \in {"k=1", "k=2"} THEN "k" ELSE "n"
Files == UNION {[1..n -> Lines] : n \in 0..4}
Last(f, k) == LET S == {i \in DOMAIN f : f[i] \notin {"", "text"} /\ Key(f[i]) = k} IN
              IF S = {} THEN "" ELSE f[CHOOSE i \in S : \A j \in S : i >= j]
ASSUME \A f \in Files : PrintT(ToJson([case |-> "lines", lines |-> f, k |-> Last(f, "k"), n |-> Last(f, "n")]))
-----------------------------------------------------------------------------
\* what is found exists, nothing that comes before it does, and the current place is the last resort
Sound == \A e \in Entries, ps \in Lists :
   LET f == Find(e, Append(ps, cwd)) IN
   /\ f \in Places => Exists(f, e)
   /\ f = "nothing" => \A i \in DOMAIN ps : ~ Exists(ps[i], e)
   /\ f = "nothing" => ~ Exists(cwd, e)
   /\ f = "refused" => \E i \in DOMAIN ps : place[ps[i]] = "absent" /\ \A j \in 1..(i - 1) : ~ Exists(ps[j], e)
Current == place[cwd] = "dir"
=============================================================================
