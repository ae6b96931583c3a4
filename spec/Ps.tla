--------------------------------- MODULE Ps ---------------------------------
(***************************************************************************)
(* A PostScript interpreter for documents made of lines, arcs and text: it  *)
(* takes the bytes of a document to the pages a reader would see.            *)
(*                                                                          *)
(*   Document(bytes) = [err   "" or what stops the execution,                *)
(*                      odd   TRUE if something is used that isn't modelled, *)
(*                      pages the pages, each a record                       *)
(*                              size  <<width, height>> or <<>>              *)
(*                              lines <<x0, y0, x1, y1>> each, stroked       *)
(*                              arcs  [c, r, from, to], counterclockwise     *)
(*                              texts [at, s, size], at is where s begins    *)
(*                              clean nothing is left on the stacks          *)
(*                      rest  marks made after the last page,                *)
(*                      notes the text of all comments before the first page]*)
(***************************************************************************)
EXTENDS Chars, Num

White == {" ", "\t", LF, CR, "\f", NByte(0)}
Delim == {"(", ")", "<", ">", "[", "]", "{", "}", "/", "%"}
Octal == {"0", "1", "2", "3", "4", "5", "6", "7"}

(***************************************************************************)
(* Tokens: [t |-> kind, s |-> text]; the kinds are num, name, lit (a literal *)
(* name), str, and op for [ ] { } << >>.                                     *)
(***************************************************************************)
ScanInit == [m |-> "start", b |-> 1, depth |-> 0, acc |-> "", oct |-> 0, on |-> 0,
             out |-> <<>>, notes |-> <<>>, err |-> ""]

PTok(k, s) == [t |-> k, s |-> s]

\* A word is a number if it looks like one, otherwise a name.
WordTok(w) ==
  LET c == Ch(w, 1) IN
  IF (c \in Digits \/ c \in {"+", "-", "."}) /\ NClassF64(w) # "none"
  THEN IF NClassF32(w) = "inf" THEN PTok("huge", w) ELSE PTok("num", w)
  ELSE PTok("name", w)

ScanStart(src, st, i, c) ==
  CASE c \in White -> st
    [] c = "%" -> [st EXCEPT !.m = "comment", !.b = i + 1]
    [] c = "(" -> [st EXCEPT !.m = "str", !.b = i + 1, !.depth = 1, !.acc = ""]
    [] c = "/" -> [st EXCEPT !.m = "lit", !.b = i + 1]
    [] c \in {"[", "]", "{", "}"} -> [st EXCEPT !.out = Append(@, PTok("op", c))]
    [] c = "<" -> [st EXCEPT !.m = "lt"]
    [] c = ">" -> [st EXCEPT !.m = "gt"]
    [] c = ")" -> [st EXCEPT !.m = "bad", !.err = "unbalanced )"]
    [] OTHER -> [st EXCEPT !.m = "word", !.b = i]

StrChar(src, st, i, c) ==
  CASE c = "(" -> [st EXCEPT !.depth = @ + 1]
    [] c = ")" -> IF st.depth > 1 THEN [st EXCEPT !.depth = @ - 1]
                  ELSE [st EXCEPT !.m = "start", !.depth = 0,
                          !.out = Append(@, PTok("str", st.acc \o SubSeq(src, st.b, i - 1)))]
    [] c = BS -> [st EXCEPT !.m = "esc", !.acc = @ \o SubSeq(src, st.b, i - 1)]
    \* any end of line reads as a newline
    [] c = CR -> [st EXCEPT !.m = "cr", !.acc = @ \o SubSeq(src, st.b, i - 1) \o LF, !.b = i + 1]
    [] OTHER -> st

OctByte(st) == NByte(st.oct % 256)

ScanStep(src, st, i) ==
  LET c == Ch(src, i)
      EscTo(s) == [st EXCEPT !.m = "str", !.acc = @ \o s, !.b = i + 1]
  IN
  CASE st.m = "bad" -> st
    [] st.m = "str" -> StrChar(src, st, i, c)
    [] st.m = "word" ->
         IF c \in White \/ c \in Delim
         THEN ScanStart(src, [st EXCEPT !.m = "start",
                                !.out = Append(@, WordTok(SubSeq(src, st.b, i - 1)))], i, c)
         ELSE st
    [] st.m = "start" -> ScanStart(src, st, i, c)
    [] st.m = "comment" ->
         IF c \in {LF, CR, "\f"}
         THEN [st EXCEPT !.m = "start", !.notes = Append(@, SubSeq(src, st.b, i - 1)),
                         !.out = Append(@, PTok("note", ""))]
         ELSE st
    [] st.m = "lit" ->
         IF c \in White \/ c \in Delim
         THEN ScanStart(src, [st EXCEPT !.m = "start",
                                !.out = Append(@, PTok("lit", SubSeq(src, st.b, i - 1)))], i, c)
         ELSE st
    [] st.m = "esc" ->
         CASE c = "n" -> EscTo(LF)
           [] c = "r" -> EscTo(CR)
           [] c = "t" -> EscTo("\t")
           [] c = "b" -> EscTo(NByte(8))
           [] c = "f" -> EscTo("\f")
           [] c \in Octal -> [st EXCEPT !.m = "oct", !.oct = DigitVal(c), !.on = 1]
           [] c = LF -> EscTo("")
           [] c = CR -> [st EXCEPT !.m = "cr", !.b = i + 1]
           [] OTHER -> EscTo(c)
    [] st.m = "oct" ->
         IF c \in Octal /\ st.on < 3
         THEN [st EXCEPT !.oct = @ * 8 + DigitVal(c), !.on = @ + 1]
         ELSE StrChar(src, [st EXCEPT !.m = "str", !.acc = @ \o OctByte(st), !.b = i], i, c)
    [] st.m = "cr" ->
         IF c = LF THEN [st EXCEPT !.m = "str", !.b = i + 1]
         ELSE StrChar(src, [st EXCEPT !.m = "str", !.b = i], i, c)
    [] st.m = "lt" -> IF c = "<" THEN [st EXCEPT !.m = "start", !.out = Append(@, PTok("op", "<<"))]
                      ELSE [st EXCEPT !.m = "bad", !.err = "odd"]     \* hex strings
    [] st.m = "gt" -> IF c = ">" THEN [st EXCEPT !.m = "start", !.out = Append(@, PTok("op", ">>"))]
                      ELSE [st EXCEPT !.m = "bad", !.err = "unbalanced >"]

\* A space at the end ends the last word.
Scan(bytes) ==
  LET src == bytes \o LF
      st == FoldLeft(LAMBDA a, i : ScanStep(src, a, i), ScanInit, Range1(Len(src)))
  IN  IF st.m \in {"start", "bad"} THEN st
      ELSE [st EXCEPT !.err = "unfinished " \o st.m]

(***************************************************************************)
(* The machine.  Objects: [t |-> "num", v], [t |-> "str", s], [t |-> "bool",  *)
(* b], [t |-> "lit", s], [t |-> "proc", toks], [t |-> "arr", a], [t |-> "dict",*)
(* d] with d a function of names, [t |-> "mark", s], [t |-> "font", name,     *)
(* size].                                                                     *)
(***************************************************************************)
Obj(v) == [t |-> "num", v |-> v]
EmptyPage == [size |-> <<>>, lines |-> <<>>, arcs |-> <<>>, texts |-> <<>>, clean |-> TRUE]
NoFont == [t |-> "font", name |-> "", size |-> N0]
Graphics0 == [dx |-> N0, dy |-> N0, k |-> N1, font |-> NoFont]
NoPoint == <<>>

PsInit == [stk |-> <<>>, dicts |-> << [x \in {} |-> 0] >>, g |-> Graphics0, saved |-> <<>>,
           cp |-> NoPoint, start |-> NoPoint, path |-> <<>>, parcs |-> <<>>,
           page |-> EmptyPage, pages |-> <<>>, err |-> "", odd |-> FALSE,
           proc |-> <<>>, depth |-> 0]

Stop(st, what) == [st EXCEPT !.err = IF @ = "" THEN what ELSE @]
Odd(st, what) == [Stop(st, what) EXCEPT !.odd = TRUE]
Push(st, o) == [st EXCEPT !.stk = Append(@, o)]
Top(st, n) == st.stk[Len(st.stk) - n]             \* from 0
Drop(st, n) == [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - n)]

\* The types of the operands of an operator, the topmost last.
Takes(st, ts) ==
  /\ Len(st.stk) >= Len(ts)
  /\ \A i \in DOMAIN ts : LET o == st.stk[Len(st.stk) - Len(ts) + i] IN ts[i] = "any" \/ o.t = ts[i]
Num1(st) == Top(st, 0).v
Num2(st) == Top(st, 1).v

\* User space to page; only shifts and uniform scales are modelled.
ToPage(st, x, y) == << NAdd(NMul(x, st.g.k), st.g.dx), NAdd(NMul(y, st.g.k), st.g.dy) >>
MoveTo(st, p) == [st EXCEPT !.cp = p, !.start = p]
LineTo(st, p) ==
  IF st.cp = NoPoint THEN Stop(st, "nocurrentpoint")
  ELSE [st EXCEPT !.path = Append(@, << st.cp[1], st.cp[2], p[1], p[2] >>), !.cp = p]
NewPath(st) == [st EXCEPT !.cp = NoPoint, !.start = NoPoint, !.path = <<>>, !.parcs = <<>>]

\* An integer operand as a TLA+ integer.
Small(x) == NIsInt(x) /\ NLt(NAbs(x), NInt(1000000))

RECURSIVE Exec(_, _)
RECURSIVE ExecAll(_, _)
RECURSIVE Repeat_(_, _, _)

Find(st, name) ==
  LET n == { i \in DOMAIN st.dicts : name \in DOMAIN st.dicts[i] }
  IN  IF n = {} THEN [found |-> FALSE]
      ELSE LET i == CHOOSE j \in n : \A k \in n : k <= j IN [found |-> TRUE, o |-> st.dicts[i][name]]

\* Executing what a name is bound to.
Call(st, o) == IF o.t = "proc" THEN ExecAll(st, o.toks) ELSE Push(st, o)

Width(st, s) == NMul(NMul(NDec(".6"), NInt(Len(s))), st.g.font.size)

Arith(st, name) ==
  LET a == Num2(st) b == Num1(st) s == Drop(st, 2) IN
  CASE name = "add" -> Push(s, Obj(NAdd(a, b)))
    [] name = "sub" -> Push(s, Obj(NSub(a, b)))
    [] name = "mul" -> Push(s, Obj(NMul(a, b)))
    [] name = "div" -> IF b = N0 THEN Stop(st, "undefinedresult") ELSE Push(s, Obj(NDiv(a, b)))
    [] name = "gt" -> Push(s, [t |-> "bool", b |-> NLt(b, a)])
    [] name = "ge" -> Push(s, [t |-> "bool", b |-> NLe(b, a)])
    [] name = "lt" -> Push(s, [t |-> "bool", b |-> NLt(a, b)])
    [] name = "le" -> Push(s, [t |-> "bool", b |-> NLe(a, b)])
    [] name = "eq" -> Push(s, [t |-> "bool", b |-> a = b])
    [] name = "ne" -> Push(s, [t |-> "bool", b |-> a # b])

ArithOps == {"add", "sub", "mul", "div", "gt", "ge", "lt", "le", "eq", "ne"}

\* n objects from the top, turned j places.
Roll(st, n, j) ==
  LET m == Len(st.stk)
      part == SubSeq(st.stk, m - n + 1, m)
      k == IF n = 0 THEN 0 ELSE ((j % n) + n) % n
  IN  [st EXCEPT !.stk = SubSeq(@, 1, m - n) \o SubSeq(part, n - k + 1, n) \o SubSeq(part, 1, n - k)]

LastMark(st, s) ==
  LET n == { i \in DOMAIN st.stk : st.stk[i].t = "mark" /\ st.stk[i].s = s }
  IN  IF n = {} THEN 0 ELSE CHOOSE i \in n : \A j \in n : j <= i

Need(st, ts, do(_)) == IF Takes(st, ts) THEN do(st) ELSE Stop(st, "stackunderflow or typecheck")

NN == << "num", "num" >>

Graphic(st, name) ==
  CASE name = "newpath" -> NewPath(st)
    [] name = "moveto" -> Need(st, NN, LAMBDA s : Drop(MoveTo(s, ToPage(s, Num2(s), Num1(s))), 2))
    [] name = "lineto" -> Need(st, NN, LAMBDA s : Drop(LineTo(s, ToPage(s, Num2(s), Num1(s))), 2))
    [] name = "rmoveto" ->
         Need(st, NN, LAMBDA s : IF s.cp = NoPoint THEN Stop(s, "nocurrentpoint")
              ELSE Drop(MoveTo(s, << NAdd(s.cp[1], NMul(Num2(s), s.g.k)), NAdd(s.cp[2], NMul(Num1(s), s.g.k)) >>), 2))
    [] name = "rlineto" ->
         Need(st, NN, LAMBDA s : IF s.cp = NoPoint THEN Stop(s, "nocurrentpoint")
              ELSE Drop(LineTo(s, << NAdd(s.cp[1], NMul(Num2(s), s.g.k)), NAdd(s.cp[2], NMul(Num1(s), s.g.k)) >>), 2))
    [] name \in {"arc", "arcn"} ->
         Need(st, << "num", "num", "num", "num", "num" >>,
              LAMBDA s :
                LET c == ToPage(s, Top(s, 4).v, Top(s, 3).v)
                    r == NMul(Top(s, 2).v, s.g.k)
                    a == IF name = "arc" THEN Num2(s) ELSE Num1(s)
                    b == IF name = "arc" THEN Num1(s) ELSE Num2(s)
                    At(w) == << NAdd(c[1], NMul(r, NCosDeg(w))), NAdd(c[2], NMul(r, NSinDeg(w))) >>
                    s1 == IF s.cp = NoPoint THEN MoveTo(s, At(Num2(s))) ELSE LineTo(s, At(Num2(s)))
                IN  IF NLt(r, N0) THEN Stop(s, "rangecheck")
                    ELSE Drop([s1 EXCEPT !.cp = At(Num1(s)),
                                         !.parcs = Append(@, [c |-> c, r |-> r, from |-> a, to |-> b])], 5))
    [] name = "closepath" -> IF st.cp = NoPoint THEN st ELSE LineTo(st, st.start)
    [] name = "stroke" ->
         NewPath([st EXCEPT !.page.lines = @ \o st.path, !.page.arcs = @ \o st.parcs])
    [] name = "currentpoint" ->
         IF st.cp = NoPoint THEN Stop(st, "nocurrentpoint")
         ELSE Push(Push(st, Obj(NDiv(NSub(st.cp[1], st.g.dx), st.g.k))), Obj(NDiv(NSub(st.cp[2], st.g.dy), st.g.k)))
    [] name = "show" ->
         Need(st, << "str" >>, LAMBDA s :
           IF s.cp = NoPoint THEN Stop(s, "nocurrentpoint")
           ELSE IF s.g.font.name = "" THEN Stop(s, "invalidfont")
           ELSE IF s.g.font.name # "Courier" THEN Odd(s, "font")
           ELSE Drop([s EXCEPT !.page.texts = Append(@, [at |-> s.cp, s |-> Top(s, 0).s,
                                                        size |-> NMul(s.g.font.size, s.g.k)]),
                               !.cp = << NAdd(s.cp[1], NMul(Width(s, Top(s, 0).s), s.g.k)), s.cp[2] >>], 1))
    [] name = "stringwidth" ->
         Need(st, << "str" >>, LAMBDA s :
           IF s.g.font.name = "" THEN Stop(s, "invalidfont")
           ELSE IF s.g.font.name # "Courier" THEN Odd(s, "font")
           ELSE Push(Push(Drop(s, 1), Obj(Width(s, Top(s, 0).s))), Obj(N0)))
    [] name \in {"setlinewidth", "setlinecap", "setlinejoin", "setgray", "setmiterlimit", "setflat"} ->
         Need(st, << "num" >>, LAMBDA s : Drop(s, 1))
    [] name = "setrgbcolor" -> Need(st, << "num", "num", "num" >>, LAMBDA s : Drop(s, 3))
    [] name = "setdash" -> Need(st, << "arr", "num" >>,
         LAMBDA s : IF Top(s, 1).a = <<>> THEN Drop(s, 2) ELSE Odd(s, "setdash"))
    [] name = "translate" -> Need(st, NN, LAMBDA s :
         LET p == ToPage(s, Num2(s), Num1(s)) IN Drop([s EXCEPT !.g.dx = p[1], !.g.dy = p[2]], 2))
    [] name = "scale" -> Need(st, NN, LAMBDA s :
         IF Num1(s) = Num2(s) /\ NLt(N0, Num1(s)) THEN Drop([s EXCEPT !.g.k = NMul(@, Num1(s))], 2)
         ELSE Odd(s, "scale"))
    [] name = "gsave" -> [st EXCEPT !.saved = Append(@, [g |-> st.g, cp |-> st.cp, start |-> st.start,
                                                         path |-> st.path, parcs |-> st.parcs])]
    [] name = "grestore" ->
         IF st.saved = <<>> THEN st
         ELSE LET o == st.saved[Len(st.saved)] IN
              [st EXCEPT !.saved = SubSeq(@, 1, Len(@) - 1), !.g = o.g, !.cp = o.cp,
                         !.start = o.start, !.path = o.path, !.parcs = o.parcs]
    [] name = "setpagedevice" -> Need(st, << "dict" >>, LAMBDA s :
         LET d == Top(s, 0).d
             n == NewPath(Drop(s, 1))
             ok == "PageSize" \in DOMAIN d /\ d["PageSize"].t = "arr" /\ Len(d["PageSize"].a) = 2
                   /\ \A i \in 1..2 : d["PageSize"].a[i].t = "num"
         IN  IF ~ ok THEN Odd(s, "setpagedevice")
             \* it starts a new page: nothing drawn before it is seen
             ELSE [n EXCEPT !.page = [EmptyPage EXCEPT !.size = << d["PageSize"].a[1].v, d["PageSize"].a[2].v >>],
                            !.g.dx = N0, !.g.dy = N0, !.g.k = N1])
    [] name = "showpage" ->
         LET n == NewPath(st) IN
         [n EXCEPT !.pages = Append(@, [st.page EXCEPT !.clean = st.stk = <<>> /\ Len(st.dicts) = 1
                                                                /\ st.saved = <<>>]),
                   !.page = [EmptyPage EXCEPT !.size = st.page.size],
                   !.g.dx = N0, !.g.dy = N0, !.g.k = N1]
    [] name = "findfont" -> Need(st, << "lit" >>, LAMBDA s :
         Push(Drop(s, 1), [t |-> "font", name |-> Top(s, 0).s, size |-> N1]))
    [] name = "scalefont" -> Need(st, << "font", "num" >>, LAMBDA s :
         Push(Drop(s, 2), [Top(s, 1) EXCEPT !.size = NMul(@, Num1(s))]))
    [] name = "selectfont" -> Need(st, << "lit", "num" >>, LAMBDA s :
         Drop([s EXCEPT !.g.font = [t |-> "font", name |-> Top(s, 1).s, size |-> Num1(s)]], 2))
    [] name = "setfont" -> Need(st, << "font" >>, LAMBDA s : Drop([s EXCEPT !.g.font = Top(s, 0)], 1))
    [] name = "currentfont" -> Push(st, st.g.font)

GraphicOps == {"newpath", "moveto", "lineto", "rmoveto", "rlineto", "arc", "arcn", "closepath", "stroke",
  "currentpoint", "show", "stringwidth", "setlinewidth", "setlinecap", "setlinejoin", "setgray",
  "setmiterlimit", "setflat", "setrgbcolor", "setdash", "translate", "scale", "gsave", "grestore",
  "setpagedevice", "showpage", "findfont", "scalefont", "selectfont", "setfont", "currentfont"}

\* Operators of PostScript that the model leaves out.
OtherOps == {"aload", "array", "astore", "atan", "awidthshow", "ashow", "bitshift", "ceiling", "charpath",
  "clear", "clip", "clippath", "concat", "concatstrings", "copypage", "cos", "count", "countdictstack",
  "curveto", "cvi", "cvn", "cvr", "cvs", "cvx", "defaultmatrix", "definefont", "eoclip", "eofill",
  "erasepage", "exec", "exit", "exp", "fill", "floor", "for", "forall", "get", "getinterval", "glyphshow",
  "idiv", "image", "initgraphics", "known", "kshow", "length", "ln", "log", "loop", "makefont", "matrix",
  "maxlength", "mod", "pathbbox", "put", "putinterval", "rcurveto", "rectfill", "rectstroke", "restore",
  "reversepath", "rotate", "round", "save", "setcolor", "sethsbcolor", "setmatrix", "sin", "sqrt", "store",
  "string", "strokepath", "systemdict", "transform", "truncate", "type", "undef", "userdict", "where",
  "widthshow", "xor", "setcmykcolor", "setstrokeadjust", "currentmatrix", "itransform", "counttomark",
  "cleartomark", "currentlinewidth", "setgstate", "gstate", "arcto", "arct"}

Operator(st, name) ==
  CASE name \in ArithOps -> Need(st, NN, LAMBDA s : Arith(s, name))
    [] name \in GraphicOps -> Graphic(st, name)
    [] name = "neg" -> Need(st, << "num" >>, LAMBDA s : Push(Drop(s, 1), Obj(NNeg(Num1(s)))))
    [] name = "abs" -> Need(st, << "num" >>, LAMBDA s : Push(Drop(s, 1), Obj(NAbs(Num1(s)))))
    [] name = "pop" -> Need(st, << "any" >>, LAMBDA s : Drop(s, 1))
    [] name = "dup" -> Need(st, << "any" >>, LAMBDA s : Push(s, Top(s, 0)))
    [] name = "exch" -> Need(st, << "any", "any" >>, LAMBDA s : Roll(s, 2, 1))
    [] name = "roll" -> Need(st, NN, LAMBDA s :
         IF ~ Small(Num1(s)) \/ ~ Small(Num2(s)) THEN Stop(s, "rangecheck")
         ELSE LET n == NFloor(Num2(s)) j == NFloor(Num1(s)) t == Drop(s, 2) IN
              IF n < 0 \/ n > Len(t.stk) THEN Stop(s, "rangecheck") ELSE Roll(t, n, j))
    [] name \in {"copy", "index"} -> Need(st, << "num" >>, LAMBDA s :
         IF ~ Small(Num1(s)) THEN Stop(s, "rangecheck")
         ELSE LET n == NFloor(Num1(s)) t == Drop(s, 1) IN
              IF n < 0 \/ n + (IF name = "index" THEN 1 ELSE 0) > Len(t.stk) THEN Stop(s, "rangecheck")
              ELSE IF name = "index" THEN Push(t, Top(t, n))
              ELSE [t EXCEPT !.stk = @ \o SubSeq(@, Len(@) - n + 1, Len(@))])
    [] name = "true" -> Push(st, [t |-> "bool", b |-> TRUE])
    [] name = "false" -> Push(st, [t |-> "bool", b |-> FALSE])
    [] name = "null" -> Push(st, [t |-> "null"])
    [] name = "not" -> Need(st, << "bool" >>, LAMBDA s : Push(Drop(s, 1), [t |-> "bool", b |-> ~ Top(s, 0).b]))
    [] name = "if" -> Need(st, << "bool", "proc" >>, LAMBDA s :
         IF Top(s, 1).b THEN ExecAll(Drop(s, 2), Top(s, 0).toks) ELSE Drop(s, 2))
    [] name = "ifelse" -> Need(st, << "bool", "proc", "proc" >>, LAMBDA s :
         ExecAll(Drop(s, 3), IF Top(s, 2).b THEN Top(s, 1).toks ELSE Top(s, 0).toks))
    [] name = "repeat" -> Need(st, << "num", "proc" >>, LAMBDA s :
         IF ~ Small(Num2(s)) \/ NLt(Num2(s), N0) THEN Stop(s, "rangecheck")
         ELSE Repeat_(Drop(s, 2), Top(s, 0).toks, NFloor(Num2(s))))
    [] name = "bind" -> Need(st, << "proc" >>, LAMBDA s : s)
    [] name = "def" -> Need(st, << "lit", "any" >>, LAMBDA s :
         LET k == Top(s, 1).s v == Top(s, 0) n == Len(s.dicts) IN
         Drop([s EXCEPT !.dicts[n] = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN v ELSE @[x]]], 2))
    [] name = "load" -> Need(st, << "lit" >>, LAMBDA s :
         LET f == Find(s, Top(s, 0).s) IN IF f.found THEN Push(Drop(s, 1), f.o) ELSE Stop(s, "undefined"))
    [] name = "dict" -> Need(st, << "num" >>, LAMBDA s : Push(Drop(s, 1), [t |-> "dict", d |-> [x \in {} |-> 0]]))
    [] name = "begin" ->
         IF Takes(st, << "dict" >>) THEN Drop([st EXCEPT !.dicts = Append(@, Top(st, 0).d)], 1)
         \* the dictionary of a font (Courier, in the units of its glyphs)
         ELSE IF Takes(st, << "font" >>)
         THEN Drop([st EXCEPT !.dicts = Append(@, [x \in {"FontBBox"} |->
                      [t |-> "proc", toks |-> << PTok("num", "-23"), PTok("num", "-250"),
                                                 PTok("num", "715"), PTok("num", "805") >>]])], 1)
         ELSE Stop(st, "typecheck")
    [] name = "end" -> IF Len(st.dicts) = 1 THEN Stop(st, "dictstackunderflow")
                       ELSE [st EXCEPT !.dicts = SubSeq(@, 1, Len(@) - 1)]
    [] name = "mark" -> Push(st, [t |-> "mark", s |-> "["])
    [] name \in OtherOps -> Odd(st, name)
    [] OTHER -> Stop(st, "undefined: " \o name)

\* One token.
Exec(st, k) ==
  IF st.err # "" THEN st
  ELSE IF k.t = "op" /\ k.s = "{" THEN [st EXCEPT !.depth = @ + 1,
                                           !.proc = IF st.depth = 0 THEN <<>> ELSE Append(@, k)]
  ELSE IF k.t = "op" /\ k.s = "}"
  THEN CASE st.depth = 0 -> Stop(st, "unbalanced }")
         [] st.depth = 1 -> Push([st EXCEPT !.depth = 0, !.proc = <<>>], [t |-> "proc", toks |-> st.proc])
         [] OTHER -> [st EXCEPT !.depth = @ - 1, !.proc = Append(@, k)]
  ELSE IF st.depth > 0 THEN [st EXCEPT !.proc = Append(@, k)]
  ELSE
  CASE k.t = "num" -> Push(st, Obj(NDec(k.s)))
    [] k.t = "huge" -> Stop(st, "limitcheck: " \o k.s)
    [] k.t = "str" -> Push(st, [t |-> "str", s |-> k.s])
    [] k.t = "lit" -> Push(st, [t |-> "lit", s |-> k.s])
    [] k.t = "note" -> st
    [] k.t = "op" /\ k.s \in {"[", "<<"} -> Push(st, [t |-> "mark", s |-> k.s])
    [] k.t = "op" /\ k.s = "]" ->
         LET i == LastMark(st, "[") n == Len(st.stk) IN
         IF i = 0 THEN Stop(st, "unmatchedmark")
         ELSE Push([st EXCEPT !.stk = SubSeq(@, 1, i - 1)], [t |-> "arr", a |-> SubSeq(st.stk, i + 1, n)])
    [] k.t = "op" /\ k.s = ">>" ->
         LET i == LastMark(st, "<<") n == Len(st.stk)
             kv == SubSeq(st.stk, i + 1, n) IN
         IF i = 0 \/ Len(kv) % 2 = 1 \/ \E j \in DOMAIN kv : j % 2 = 1 /\ kv[j].t # "lit"
         THEN Stop(st, "unmatchedmark")
         ELSE Push([st EXCEPT !.stk = SubSeq(@, 1, i - 1)],
                   [t |-> "dict", d |-> [x \in { kv[j].s : j \in { l \in DOMAIN kv : l % 2 = 1 } } |->
                                           kv[1 + CHOOSE j \in DOMAIN kv : j % 2 = 1 /\ kv[j].s = x]]])
    [] k.t = "name" -> LET f == Find(st, k.s) IN IF f.found THEN Call(st, f.o) ELSE Operator(st, k.s)

ExecAll(st, toks) == FoldLeft(Exec, st, toks)
Repeat_(st, toks, n) == FoldLeft(LAMBDA s, i : ExecAll(s, toks), st, Range1(n))

Document(bytes) ==
  LET sc == Scan(bytes)
      st == ExecAll(PsInit, sc.out)
      \* the interpreter gets to a scanner error after what is before it
      err == IF st.err # "" THEN st.err ELSE sc.err
      end == IF err = "" /\ st.depth > 0 THEN "unbalanced {" ELSE err
  IN  [err |-> end, odd |-> st.odd \/ end = "odd", pages |-> st.pages,
       rest |-> st.page.lines # <<>> \/ st.page.arcs # <<>> \/ st.page.texts # <<>> \/ st.stk # <<>>,
       notes |-> sc.notes]
=============================================================================
