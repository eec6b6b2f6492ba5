------------------------------- MODULE Graphs -------------------------------
(* Drawing sessions.  A study has its defect sizes at the places 0..10; a graph    *)
(* is asked with a probability level and a confidence level (percents, 0 = none),  *)
(* a range (None = default), a number of points and a file name (0 = none).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Levels, Confs, Lows, Highs, Counts, Names, Reach, Bounded, MaxLen
VARIABLES files, shown, hist
vars == <<files, shown, hist>>
None == -99
Low(o) == IF o.lo = None THEN 0 ELSE o.lo
High(o) == IF o.hi = None THEN 10 ELSE o.hi
Inside(t) == 0 <= t /\ t <= 10
(* studies given at a list of defect sizes only draw within it *)
Accepts(o, bounded, reached) == (bounded => Inside(Low(o)) /\ Inside(High(o))) /\ (o.level # 0 => reached)
Elements(o) == {"pod"} \cup (IF o.cl # 0 THEN {"cl"} ELSE {})
               \cup (IF o.level # 0 THEN {"level", "size"} ELSE {})
               \cup (IF o.level # 0 /\ o.cl # 0 THEN {"size_cl"} ELSE {})
Written(fs, o, ok) == IF ok /\ o.name # 0 THEN fs \cup {o.name} ELSE fs
(* graphs shown when n points are added by at most b at a time *)
Batches(n, b, m) == m <= n /\ n <= b * m
Options == {o \in [level : Levels, cl : Confs, lo : Lows, hi : Highs, nb : Counts, name : Names] : Low(o) < High(o)}
Ok(o) == Accepts(o, Bounded, <<o.level, o.cl>> \in Reach)
Init == files = {} /\ shown = {} /\ hist = <<>>
Draw(o) == /\ Len(hist) < MaxLen
           /\ shown' = IF Ok(o) THEN Elements(o) ELSE {}
           /\ files' = Written(files, o, Ok(o))
           /\ hist' = Append(hist, o)
Emit == Len(hist) = MaxLen /\ PrintT("CASE " \o ToJson([h |-> hist])) /\ FALSE /\ UNCHANGED vars
Next == (\E o \in Options : Draw(o)) \/ Emit
Spec == Init /\ [][Next]_vars
OnlyNamedFiles == \A f \in files : \E i \in 1..Len(hist) : hist[i].name = f /\ Ok(hist[i])
NamedFilesExist == \A i \in 1..Len(hist) : (hist[i].name # 0 /\ Ok(hist[i])) => hist[i].name \in files
SizesOnCurves == /\ ("size" \in shown => {"pod", "level"} \subseteq shown)
                 /\ ("size_cl" \in shown => {"cl", "size"} \subseteq shown)
                 /\ (shown # {} => "pod" \in shown)
RefusedShowsNothing == hist # <<>> => ((shown = {}) = ~Ok(hist[Len(hist)]))
NeverErased == [][files \subseteq files']_vars
=============================================================================
