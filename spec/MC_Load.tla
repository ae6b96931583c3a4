------------------------------- MODULE MC_Load -------------------------------
(***************************************************************************)
(* Small file systems, load paths and load statements.  Laws: the first       *)
(* place that has the file counts, whatever comes after it; empty entries     *)
(* make no difference; a name can be loaded once.                            *)
(***************************************************************************)
EXTENDS Meaning, FiniteSets, Json
VARIABLES fs, lp, file, two, told
vars == << fs, lp, file, two, told >>

Dirs == {"", "a/", "b/"}
Whats == {"none", "file", "dir"}
Entries == {"a", "b/", "./b", "", "z/..", "a/../b", "b/.././/a"}
Paths == UNION { [1..n -> Entries] : n \in 0..2 }
Names == {"f.stl", "./f.stl", "a/f.stl", "f.st", "../b/f.stl", "f.stl/", "@ROOT@/b/f.stl"}
Triangle(k) == "facet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex " \o ToString(k) \o " 0 0\nvertex 0 " \o ToString(k + 1) \o " 0\nendloop\nendfacet\n"
Size(d) == CASE d = "" -> 1 [] d = "a/" -> 2 [] OTHER -> 4
\* @ROOT@ is the scratch directory
Absolute == file = "@ROOT@/b/f.stl"
Files == LET ds == SelectSeq(<< "", "a/", "b/" >>, LAMBDA d : fs[d] # "none") IN
         [i \in DOMAIN ds |-> << (IF Absolute THEN "@ROOT@/" ELSE "") \o ds[i] \o "f.stl", Triangle(Size(ds[i])), fs[ds[i]] >>]
LoadPath == Join(lp, ",")
AsInput == [files |-> [i \in DOMAIN Files |-> [path |-> Files[i][1], data |-> Files[i][2], kind |-> Files[i][3]]], loadpath |-> LoadPath]

Init == /\ fs \in [Dirs -> Whats] /\ lp \in Paths /\ file \in Names /\ two \in {"", "same", "other"} /\ told = FALSE
        /\ two # "" => Len(lp) < 2
        /\ Absolute => two # "other"
Load(n) == "load " \o n \o " = \"" \o file \o "\";\n"
Script == Load("m") \o (CASE two = "same" -> Load("m") [] two = "other" -> "load k = \"b/f.stl\";\n" [] OTHER -> "")
          \o "page { draw m { @[-2, 0]; } " \o (IF two = "other" THEN "draw k { @[2, 0]; } " ELSE "") \o "}\n"
Next == ~ told /\ told' = TRUE /\ UNCHANGED << fs, lp, file, two >>
        /\ PrintT("CASE " \o ToJson([script |-> Script, files |-> Files, loadpath |-> LoadPath]))

Found(p) == Find1([AsInput EXCEPT !.loadpath = Join(p, ",")], file)
\* where an entry leads, said in another way
HasFile(d) == fs[d] # "none"
Leads(e) == CASE e = "a" -> "a/" [] e \in {"b/", "./b"} -> "b/"
              [] e = "a/../b" /\ HasFile("a/") -> "b/"  [] e = "b/.././/a" /\ HasFile("b/") -> "a/" [] OTHER -> "none"
\* a name that ends in / can only be a directory
Fits(d) == IF file = "f.stl/" THEN fs[d] = "dir" ELSE HasFile(d)
Want ==
  IF file = "a/f.stl" THEN IF HasFile("a/") THEN "a/" ELSE "none"
  ELSE IF file = "f.st" THEN "none"
  ELSE IF file = "../b/f.stl" THEN
       IF HasFile("b/") /\ \E i \in DOMAIN lp : Leads(lp[i]) # "none" /\ HasFile(Leads(lp[i])) THEN "b/" ELSE "none"
  ELSE IF Fits("") THEN "" ELSE
       LET hits == { i \in DOMAIN lp : Leads(lp[i]) # "none" /\ Fits(Leads(lp[i])) } IN
       IF hits = {} THEN "none" ELSE Leads(lp[CHOOSE i \in hits : \A j \in hits : i <= j])
FirstHit == Absolute \/ LET f == Found(lp) IN
            IF Want = "none" THEN f.kind = "none" ELSE f.kind = fs[Want] /\ (f.kind = "file" => f.path = Want \o "f.stl")
NoEmpty == Found(SelectSeq(lp, LAMBDA e : e # "")) = Found(lp)
Longer == (Len(lp) < 2 /\ two = "" /\ Found(lp).kind # "none") => \A e \in Entries : Found(Append(lp, e)) = Found(lp)
=============================================================================
