------------------------------ MODULE MC_Props ------------------------------
(***************************************************************************)
(* Statements with all sets of their properties, in several orders, some      *)
(* twice, some with values of another type, and some that don't belong there. *)
(* Laws: what is wrong with a statement and what it draws don't depend on the *)
(* order; a statement with nothing wrong has exactly what it needs.           *)
(* Each statement is printed for the real program, with whether it is right.  *)
(***************************************************************************)
EXTENDS Meaning, FiniteSets, Json
VARIABLES kind, base, mut, order, told
vars == << kind, base, mut, order, told >>


Stl == "facet normal 0 0 1\nvertex 5 0 0\nvertex 3 4 0\nvertex -4 3 0\nendfacet\nfacet normal 0 0 1\nvertex 5 0 0\nvertex -4 3 0\nvertex -3 -4 0\nendfacet\n"
       \o "facet normal 0 0 1\nvertex 5 0 0\nvertex -3 -4 0\nvertex 4 -3 0\nendfacet\n"
Q(s) == "\"" \o s \o "\""

\* properties with a value that is right, per kind of statement
Props(k) ==
  CASE k = "dim" -> << << "at", "[1, 7, 0]" >>, << "dir", "[1, 0, 0]" >>, << "from", "[-3, 0.5, 0]" >>, << "to", "[3.25, 1, 0]" >>, << "fmt", Q("%.2f") >> >>
    [] k = "angle" -> << << "at", "[6, 3, 0]" >>, << "apex", "[1, 1, 0]" >>, << "from_dir", "[1, 0, 0]" >>, << "to_point", "[2, 6, 0]" >>, << "fmt", Q("%.1f") >>,
                         << "from_point", "[7, 2, 0]" >>, << "to_dir", "[1, 2, 0]" >> >>
    [] k \in {"dia", "rad"} -> << << "at", "[8, 7, 0]" >>, << "dir", "[1, 2, 0]" >>, << "center", "[0, 0, 0]" >>, << "fmt", Q("%.2f") >> >>
    [] k = "draw" -> << << "scale", "1 : 4" >>, << "view", Q("Z+") >>, << "@", "[2, 1]" >> >>
    [] k = "text" -> << << "@", "[2, 1]" >> >>
    [] k = "page" -> << << "name", Q("n") >> >>
Others == << << "size", "1" >>, << "At", "[1, 2, 3]" >>, << "center", "[1, 2, 0]" >>, << "name", Q("x") >>, << "from", "[1, 2, 3]" >>, << "scale", "1 : 2" >>, << "fmt", Q("%f") >> >>
Values == << "[1, 2, 0]", "[1, 2]", "3", "1 : 2", Q("%.1f"), "near([1, 2, 0])", "center([1, 0, 0])", "far([1, 2, 3])", Q("Z-"), "near(center([0, 0, 0]))",
             "2 : 3.5", Q(""), "0 : 1", "1 : -2" >>
Kinds == {"dim", "angle", "dia", "rad", "draw", "text", "page"}
Dims == {"dim", "angle", "dia", "rad"}

Needs(k) == CASE k = "dim" -> {{"at", "dir", "from", "to"}}
              [] k = "angle" -> { {"at", "apex", f, t} : f \in {"from_dir", "from_point"}, t \in {"to_dir", "to_point"} }
              [] k \in {"dia", "rad"} -> {{"at", "dir", "center"}}
              [] OTHER -> {{}}

\* what is done to the base set: nothing, a property added, or one's value replaced
Muts(k, b) ==
  { << "none" >> }
  \cup { << "add", Props(k)[i] >> : i \in b }
  \cup { << "add", Others[i] >> : i \in DOMAIN Others }
  \cup { << "add", << Props(k)[i][1], Values[1] >> >> : i \in b }
  \cup { << "set", i, Values[v] >> : i \in { j \in b : Props(k)[j][1] # "@" /\ \E n \in Needs(k) : n \subseteq { Props(k)[x][1] : x \in b } }, v \in DOMAIN Values }
Orders == {"as is", "reversed", "rotated", "last first"}
Enough(k, b) == k # "angle" \/ Cardinality(b) <= 6

Init == /\ kind \in Kinds
        /\ base \in SUBSET (DOMAIN Props(kind))
        /\ Enough(kind, base)
        /\ mut \in Muts(kind, base)
        /\ order \in Orders
        /\ told = FALSE

Arg(p) == IF p[1] = "@" THEN "@" \o p[2] ELSE p[1] \o " = " \o p[2]
Args0 ==
  LET b == SelectSeq([i \in DOMAIN Props(kind) |-> i], LAMBDA i : i \in base)
      a == [j \in DOMAIN b |-> IF mut[1] = "set" /\ mut[2] = b[j] THEN << Props(kind)[b[j]][1], mut[3] >> ELSE Props(kind)[b[j]]]
  IN  IF mut[1] = "add" THEN Append(a, mut[2]) ELSE a
Ordered(a, o) ==
  LET n == Len(a) IN
  CASE o = "as is" -> a
    [] o = "reversed" -> Reverse(a)
    [] o = "rotated" -> [i \in 1..n |-> a[((i + n \div 2 - 1) % n) + 1]]
    [] OTHER -> [i \in 1..n |-> a[((i + n - 2) % n) + 1]]
ArgList(a, sep) == Join([i \in DOMAIN a |-> Arg(a[i])], sep)
Semi(a) == ArgList(a, "; ") \o (IF a = <<>> THEN "" ELSE ";")
Stmt(a) == CASE kind \in Dims -> kind \o "(" \o ArgList(a, ", ") \o ");"
             [] kind = "draw" -> "draw m { " \o Semi(a) \o " }"
             [] kind = "text" -> "text [" \o Q("t") \o "] { " \o Semi(a) \o " }"
             [] kind = "page" -> "page { " \o Semi(a) \o " }"
Script(a) == CASE kind \in Dims -> "page { draw m { " \o Stmt(a) \o " } }"
               [] kind = "page" -> Stmt(a)
               [] OTHER -> "page { " \o Stmt(a) \o " }"

\* What the specification makes of it: [err, bad, unsure, ink].
Model == [ok |-> TRUE, facets |-> ReadStl(Stl).out, unsure |-> FALSE]
Cx == Scene([name |-> "m", args |-> <<>>, ln |-> 1, dims |-> <<>>], [m |-> Model])
Says(a) ==
  LET d == Parse(Script(a))
      Words(bad) == { << b.word, b.c >> : b \in bad }
      p == d.pages[1] IN
  IF d.err # 0 THEN [err |-> TRUE, bad |-> {}, unsure |-> FALSE, ink |-> <<>>]
  ELSE CASE kind \in Dims -> LET r == Annotate(Cx, p.items[1].dims[1]) IN [err |-> FALSE, bad |-> Words(r.bad), unsure |-> r.unsure, ink |-> r.ink]
         [] kind = "draw" -> [err |-> FALSE, bad |-> Words(DrawBad(p.items[1], [m |-> Model])), unsure |-> FALSE,
                              ink |-> IF DrawBad(p.items[1], [m |-> Model]) # {} THEN <<>>
                                      ELSE LET sc == Scene(p.items[1], [m |-> Model]) IN << sc.m, sc.scale, sc.d >>]
         [] kind = "text" -> [err |-> FALSE, bad |-> Words(TextBad(p.items[1])), unsure |-> FALSE, ink |-> TextBlock(p.items[1])]
         [] kind = "page" -> [err |-> FALSE, bad |-> Words(PageBad(p)), unsure |-> FALSE, ink |-> << PageName(p) >>]

Next == ~ told /\ told' = TRUE /\ UNCHANGED << kind, base, mut, order >>
        /\ LET a == Ordered(Args0, order) r == Says(a) IN
           PrintT("CASE " \o ToJson([kind |-> kind, stmt |-> Stmt(a), err |-> r.err, bad |-> r.bad # {}, unsure |-> r.unsure]))

\* ---- laws
May == CASE kind \in Dims -> {"fmt"} [] kind = "draw" -> {"scale", "view", "@"} [] kind = "text" -> {"@"} [] OTHER -> {"name"}
NamesOf == { Args0[i][1] : i \in DOMAIN Args0 }
Complete == Cardinality(NamesOf) = Len(Args0) /\ \E n \in Needs(kind) : n \subseteq NamesOf /\ NamesOf \subseteq n \cup May
Named(bad) == { w[1] : w \in bad }
Laws ==
  LET a == Says(Args0)
      b == IF order = "as is" THEN a ELSE Says(Ordered(Args0, order))
  IN  \* in any order
      /\ Named(a.bad) = Named(b.bad) /\ a.err = b.err /\ (a.bad = {} => a.ink = b.ink)
      \* values are right as long as none was replaced
      /\ (mut[1] # "set" /\ ~ a.err /\ ~ a.unsure) => ((a.bad = {}) <=> Complete)
      /\ ~ Complete => a.bad # {} \/ a.err
=============================================================================
