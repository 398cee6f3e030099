----------------------------- MODULE Observers -----------------------------
(* What a directory of output files contains (P22).

   The state is the set of files which are there.  The files come and go; at any
   time a user may ask for one observer by its number or name, or open the whole
   dataset.  Every answer is a function of the files that are there at that time,
   and of nothing which happened before.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Pool,      \* names of the files which may be there
          MaxFiles,  \* how many at a time
          Asked,     \* requests
          Depth

(* How EPREM names its files: a prefix, the number of a stream (six digits) or of
   a point observer (three digits) or its name, and a suffix.                    *)
Stream(pre, d, n) == [stem |-> pre \o d, ext |-> "nc", kind |-> "stream", num |-> n, key |-> d]
Point(pre, k) == [stem |-> pre \o k, ext |-> "nc", kind |-> "point", num |-> 0, key |-> k]
Other(stem, ext) == [stem |-> stem, ext |-> ext, kind |-> "other", num |-> 0, key |-> ""]
Named(stem) == [stem |-> stem, ext |-> "nc", kind |-> "named", num |-> 0, key |-> stem]
Config(stem, ext, rank) == [stem |-> stem, ext |-> ext, kind |-> "config", num |-> rank, key |-> ""]
StreamPrefixes == {"stream", "obs", "flux"}
PointPrefixes == {"point", "p_obs"}
File(f) == IF f.ext = "" THEN f.stem ELSE f.stem \o "." \o f.ext

(* the files of the exploration *)
Catalogue ==
  [o0 |-> Stream("obs", "000000", 0), f0 |-> Stream("flux", "000000", 0), s0 |-> Stream("stream", "000000", 0),
   o1 |-> Stream("obs", "000001", 1), f10 |-> Stream("flux", "000010", 10), s12 |-> Stream("stream", "000012", 12),
   o100 |-> Stream("obs", "123456", 123456),
   p0 |-> Point("p_obs", "000"), q0 |-> Point("point", "000"), p1 |-> Point("p_obs", "001"), q10 |-> Point("point", "010"),
   bob |-> Point("p_obs", "bob"), pin |-> Point("point", "pin"),
   earth |-> Named("earth"), zero |-> Named("000"), one |-> Named("1"),
   t0 |-> Other("obs000000", "txt"), o2 |-> Other("obs000002", "txt"), old |-> Other("obs000001", "old.nc"), note |-> Other("observation", "nc"),
   sum |-> Other("stream_summary", "nc"), fm |-> Other("flux-map", "nc"), x0 |-> Other("xobs000000", "nc"), read |-> Other("README", "txt"),
   pt |-> Other("p_obs000", "log"),
   ini0 |-> Config("eprem_input_file", "", 0), cfg |-> Config("eprem", "cfg", 1), cfg2 |-> Config("run", "cfg", 1), ini |-> Config("eprem", "ini", 2),
   in |-> Config("eprem", "in", 3)]
Here(files) == {Catalogue[k] : k \in files}

Pad(n) == CASE n = 0 -> "000000" [] n = 1 -> "000001" [] n = 2 -> "000002" [] n = 10 -> "000010" [] n = 12 -> "000012" [] n = 123456 -> "123456" [] OTHER -> "none"
Pad3(n) == CASE n = 0 -> "000" [] n = 1 -> "001" [] n = 10 -> "010" [] n = 12 -> "012" [] OTHER -> "none"
Number(text) == CASE text \in {"0", "000"} -> 0 [] text \in {"1", "001"} -> 1 [] text = "010" -> 10 [] OTHER -> 999

(* A request is [how, num, text]; the text of a request by number is empty *)
Stems(q) ==
  CASE q.how \in {"stream", "observer"} /\ q.text = "" -> {p \o Pad(q.num) : p \in StreamPrefixes}
    [] q.how = "point" /\ q.text = "" -> {p \o Pad3(q.num) : p \in PointPrefixes}
    [] OTHER -> {q.text} \cup (IF Number(q.text) = 999 THEN {} ELSE {p \o Pad3(Number(q.text)) : p \in PointPrefixes})

(* the configuration file: the best of the usual names, unless two share that rank *)
Configs(files) == {f \in Here(files) : f.kind = "config"}
Best(files) == {f \in Configs(files) : \A g \in Configs(files) : f.num <= g.num}
Settings(files) == IF Configs(files) = {} THEN [out |-> "refused"]
                   ELSE [out |-> "file", file |-> {File(f) : f \in Best(files)}]
Given(files, name) == IF name = "" THEN Settings(files)
                      ELSE IF \E f \in Here(files) : File(f) = name THEN [out |-> "file", file |-> {name}]
                      ELSE [out |-> "refused"]

(* one observer *)
Found(files, q) == {f \in Here(files) : f.stem \in Stems(q)}
Answer(files, q) ==
  LET c == Found(files, q) IN
  IF Cardinality(c) /= 1 \/ Given(files, q.config).out = "refused" THEN [out |-> "refused"]
  ELSE LET f == CHOOSE x \in c : TRUE IN
    IF f.ext /= "nc" THEN [out |-> "unspecified"]
    ELSE [out |-> "observer", type |-> IF q.how /= "point" /\ q.text = "" THEN "Stream" ELSE "Point",
          file |-> File(f), config |-> Given(files, q.config).file]

(* the whole dataset: [id, files it may be bound to, must it be there] *)
Kind(files, k) == {f \in Here(files) : f.kind = k}
Streams(files) == {[id |-> n, file |-> {File(f) : f \in {g \in Kind(files, "stream") : g.num = n}}] : n \in {f.num : f \in Kind(files, "stream")}}
Points(files) == {[id |-> k, file |-> {File(f) : f \in {g \in Kind(files, "point") : g.key = k}}] : k \in {f.key : f \in Kind(files, "point")}}
Tolerated(files) == {[id |-> f.key, file |-> {File(f)}] : f \in Kind(files, "named")}
Dataset(files, name) ==
  IF Given(files, name).out = "refused" THEN [out |-> "refused"]
  ELSE [out |-> "dataset", streams |-> Streams(files), points |-> Points(files), named |-> Tolerated(files), config |-> Given(files, name).file]

VARIABLES files, last
vars == <<files, last>>
Create == /\ Cardinality(files) < MaxFiles
          /\ \E k \in Pool \ files : files' = files \cup {k} /\ last' = [do |-> "create", file |-> File(Catalogue[k])]
Remove == \E k \in files : files' = files \ {k} /\ last' = [do |-> "remove", file |-> File(Catalogue[k])]
Ask == \E q \in Asked :
  /\ files' = files
  /\ last' = [do |-> "ask", q |-> q, want |-> IF q.how = "dataset" THEN Dataset(files, q.config) ELSE Answer(files, q)]
Init == files = {} /\ last = [do |-> "start"]
Next == TLCGet("level") <= Depth /\ (Create \/ Remove \/ Ask)
Spec == Init /\ [][Next]_vars
View == files
Emit == PrintT(ToJson([pre |-> [files |-> files], last |-> last', post |-> [files |-> files']]))
-----------------------------------------------------------------------------
\* laws
One(S) == Cardinality(S) = 1
\* what the dataset lists under an unambiguous number is what the user gets by asking for that number
Agree == \A s \in Streams(files) :
  LET a == Answer(files, [how |-> "stream", num |-> s.id, text |-> "", config |-> ""]) IN
  a.out = "observer" => s.file = {a.file}
\* files of other kinds never matter for the dataset
Ignored == \A k \in files : Catalogue[k].kind = "other" => Dataset(files \ {k}, "") = Dataset(files, "")
\* an observer is never both a stream and a point
Apart == {f.file : f \in Streams(files)} \cap {f.file : f \in Points(files)} = {}
\* one more file can only make a request ambiguous or answer it
Monotone == \A k \in files : \A q \in Asked :
  q.how /= "dataset" /\ Answer(files \ {k}, q).out = "observer" /\ Answer(files, q).out = "observer" => Answer(files, q).file = Answer(files \ {k}, q).file
=============================================================================
