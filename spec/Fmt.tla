-------------------------------- MODULE Fmt --------------------------------
(***************************************************************************)
(* Label formats: printf formats with exactly one %f conversion.             *)
(*                                                                          *)
(* A parsed format is [k |-> "ok", pre, post |-> literal text around it,      *)
(* fl |-> set of flags, w |-> width, p |-> decimals], or [k |-> "bad"], or     *)
(* [k |-> "unsure"] for what printf implementations differ in (length         *)
(* modifiers, numbered arguments, enormous widths).                          *)
(***************************************************************************)
EXTENDS Chars, Num, TLC

Flags == {"-", "+", " ", "#", "0"}
LengthChars == {"h", "l", "L", "q", "j", "z", "t"}

FmtInit == [m |-> "lit", n |-> 0, pre |-> "", post |-> "", fl |-> {}, w |-> "", p |-> "",
            hasp |-> FALSE, odd |-> FALSE]

\* Literal text goes before or after the conversion.
Lit(st, s) == IF st.n = 0 THEN [st EXCEPT !.pre = @ \o s, !.m = "lit"]
              ELSE [st EXCEPT !.post = @ \o s, !.m = "lit"]

FmtStep(st, c) ==
  LET Conv == IF c = "f" THEN [st EXCEPT !.m = "lit", !.n = @ + 1]
              ELSE IF c \in LengthChars THEN [st EXCEPT !.m = "len", !.odd = TRUE]
              ELSE [st EXCEPT !.m = "bad"]
      First == IF st.n > 0 THEN [st EXCEPT !.m = "bad"] ELSE st
  IN
  CASE st.m = "bad" -> st
    [] st.m = "lit" -> IF c = "%" THEN [st EXCEPT !.m = "pct"] ELSE Lit(st, c)
    [] st.m = "pct" -> IF c = "%" THEN Lit(st, "%")
                       ELSE IF st.n > 0 THEN
                              \* a second conversion; numbered ones may repeat
                              [st EXCEPT !.m = IF c \in Digits THEN "lit" ELSE "bad",
                                         !.odd = @ \/ c \in Digits]
                       ELSE IF c \in Flags THEN [st EXCEPT !.m = "flag", !.fl = @ \cup {c}]
                       ELSE IF c \in Digits THEN [st EXCEPT !.m = "width", !.w = c]
                       ELSE IF c = "." THEN [st EXCEPT !.m = "prec", !.hasp = TRUE]
                       ELSE Conv
    [] st.m = "flag" -> IF c \in Flags THEN [st EXCEPT !.fl = @ \cup {c}]
                        ELSE IF c \in Digits THEN [st EXCEPT !.m = "width", !.w = c]
                        ELSE IF c = "." THEN [st EXCEPT !.m = "prec", !.hasp = TRUE]
                        ELSE Conv
    [] st.m = "width" -> IF c \in Digits THEN [st EXCEPT !.w = @ \o c]
                         ELSE IF c = "$" THEN [st EXCEPT !.m = "flag", !.odd = TRUE, !.w = ""]
                         ELSE IF c = "." THEN [st EXCEPT !.m = "prec", !.hasp = TRUE]
                         ELSE Conv
    [] st.m = "prec" -> IF c \in Digits THEN [st EXCEPT !.p = @ \o c] ELSE Conv
    [] st.m = "len" -> Conv

ParseFmt(s) ==
  LET st == FoldLeft(LAMBDA a, i : FmtStep(a, Ch(s, i)), FmtInit, Range1(Len(s))) IN
  IF st.m = "bad" \/ (st.m # "lit") \/ st.n # 1
  THEN [k |-> IF st.odd THEN "unsure" ELSE "bad"]
  ELSE IF st.odd \/ Len(st.w) > 4 \/ Len(st.p) > 4 THEN [k |-> "unsure"]
  ELSE [k |-> "ok", pre |-> st.pre, post |-> st.post, fl |-> st.fl, w |-> IntVal(st.w),
        p |-> IF st.hasp THEN IntVal(st.p) ELSE 6]

Repeat(c, n) == FoldLeft(LAMBDA a, i : a \o c, "", Range1(IF n < 0 THEN 0 ELSE n))

\* What printf shows for the conversion of a number x >= 0.
Shown(f, x) ==
  LET num == NFix(x, f.p) \o (IF f.p = 0 /\ "#" \in f.fl THEN "." ELSE "")
      sign == IF "+" \in f.fl THEN "+" ELSE IF " " \in f.fl THEN " " ELSE ""
      pad == f.w - Len(num) - Len(sign)
  IN  IF "-" \in f.fl THEN sign \o num \o Repeat(" ", pad)
      ELSE IF "0" \in f.fl THEN sign \o Repeat("0", pad) \o num
      ELSE Repeat(" ", pad) \o sign \o num
Render(f, x) == f.pre \o Shown(f, x) \o f.post

Default(p) == [k |-> "ok", pre |-> "", post |-> "", fl |-> {}, w |-> 0, p |-> p]

(***************************************************************************)
(* s is a label for the value x, known up to eps: the number it shows is     *)
(* read back, has to be near x, and has to be shown as printf would.         *)
(***************************************************************************)
IsLabel(f, x, eps, s) ==
  /\ Len(s) > Len(f.pre) + Len(f.post)
  /\ LET mid == SubSeq(s, Len(f.pre) + 1, Len(s) - Len(f.post))
         num == Strip(mid, " ")
     IN  /\ NClassF64(num) \in {"num", "tiny"}
         /\ LET y == NDec(num) IN
            /\ NLe(N0, y)
            /\ NLe(NAbs(NSub(x, y)), NAdd(eps, NDec("0.50001e-" \o ToString(f.p))))
            /\ s = Render(f, y)
=============================================================================
