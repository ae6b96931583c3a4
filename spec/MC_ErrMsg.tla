------------------------------ MODULE MC_ErrMsg ------------------------------
(* All short histories of the reporter over small sets of names, places and  *)
(* texts; each complete one is printed for the real reporter to repeat.       *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES run, todo, log, told

Names == << <<>>, <<"">>, <<"a.s">>, <<"%s%n">>, <<"a:1:[2,3]: b">>, <<"a b">> >>
Texts == << "", "x", "%d %s", "syntax error, unexpected \"}\"", "line\nbreak" >>
Nums == << 0, 1, 7, 10, 2147483647, -1 >>
Call(f, p, t) == [file |-> f, bl |-> p[1], bc |-> p[2], el |-> p[3], ec |-> p[4], text |-> t]
Places == [i \in 1 .. (6 * 6 * 6) |->
            LET a == Nums[((i - 1) % 6) + 1] b == Nums[(((i - 1) \div 6) % 6) + 1] c == Nums[((i - 1) \div 36) + 1]
            IN  IF i % 2 = 0 THEN << a, b, a, c >> ELSE << a, b, c, b + 1 - 2 * (b \div 2147483647) >>]
One == [i \in 1 .. (216 * 5) |->
          << Call(Names[(i % 6) + 1], Places[((i - 1) \div 5) + 1], Texts[(i % 5) + 1]) >>]
Two == [i \in 1 .. 900 |-> << Call(Names[(i % 6) + 1], Places[(i % 216) + 1], Texts[((i \div 6) % 5) + 1]),
                              Call(Names[((i \div 30) % 6) + 1], Places[((i * 7) % 216) + 1], Texts[((i \div 180) % 5) + 1]) >>]
E == INSTANCE ErrMsg WITH Runs <- One \o Two

Init == E!Init /\ told = FALSE
Tell == /\ todo = <<>> /\ ~ told /\ told' = TRUE
        /\ PrintT("CASE " \o ToJson([calls |-> (One \o Two)[run], want |-> log]))
        /\ UNCHANGED << run, todo, log >>
Next == (E!Report /\ UNCHANGED told) \/ Tell
OneLineEach == E!OneLineEach
=============================================================================
