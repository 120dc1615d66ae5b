------------------------------- MODULE RSWords -------------------------------
(* The 48 Reeds-Shepp words: 12 base words, each as is, time-flipped,          *)
(* reflected, or both.  A motion is <<steer, direction, length>> with          *)
(* steer 1 left, 0 straight, -1 right; direction 1 forward, -1 backward;       *)
(* lengths normalised by the turning radius, in 1/10000.                       *)
EXTENDS Integers, Sequences, FiniteSets
Quarter == 15708
Base(b, t, u, v) ==
    CASE b = 0 -> << <<1, 1, t>>, <<0, 1, u>>, <<1, 1, v>> >>
      [] b = 1 -> << <<1, 1, t>>, <<0, 1, u>>, <<-1, 1, v>> >>
      [] b = 2 -> << <<1, 1, t>>, <<-1, -1, u>>, <<1, 1, v>> >>
      [] b = 3 -> << <<1, 1, t>>, <<-1, -1, u>>, <<1, -1, v>> >>
      [] b = 4 -> << <<1, 1, t>>, <<-1, 1, u>>, <<1, -1, v>> >>
      [] b = 5 -> << <<1, 1, t>>, <<-1, 1, u>>, <<1, -1, u>>, <<-1, -1, v>> >>
      [] b = 6 -> << <<1, 1, t>>, <<-1, -1, u>>, <<1, -1, u>>, <<-1, 1, v>> >>
      [] b = 7 -> << <<1, 1, t>>, <<-1, -1, Quarter>>, <<0, -1, u>>, <<1, -1, v>> >>
      [] b = 8 -> << <<1, 1, t>>, <<-1, -1, Quarter>>, <<0, -1, u>>, <<-1, -1, v>> >>
      [] b = 9 -> << <<1, 1, t>>, <<0, 1, u>>, <<-1, 1, Quarter>>, <<1, -1, v>> >>
      [] b = 10 -> << <<1, 1, t>>, <<0, 1, u>>, <<1, 1, Quarter>>, <<-1, -1, v>> >>
      [] b = 11 -> << <<1, 1, t>>, <<-1, -1, Quarter>>, <<0, -1, u>>, <<1, -1, Quarter>>, <<-1, 1, v>> >>
Timeflip(ms) == [i \in DOMAIN ms |-> <<ms[i][1], -ms[i][2], ms[i][3]>>]
Reflect(ms) == [i \in DOMAIN ms |-> <<-ms[i][1], ms[i][2], ms[i][3]>>]
\* the same curve driven from its end to its start
Backwards(ms) == [i \in DOMAIN ms |-> <<ms[Len(ms) + 1 - i][1], -ms[Len(ms) + 1 - i][2], ms[Len(ms) + 1 - i][3]>>]
Word(w, t, u, v) ==
    LET b == Base(w \div 4, t, u, v) IN
    CASE w % 4 = 0 -> b [] w % 4 = 1 -> Timeflip(b) [] w % 4 = 2 -> Reflect(b) [] w % 4 = 3 -> Reflect(Timeflip(b))
RECURSIVE Total(_, _)
Total(ms, i) == IF i > Len(ms) THEN 0 ELSE ms[i][3] + Total(ms, i + 1)
Length(ms) == Total(ms, 1)
Shape(ms) == [i \in DOMAIN ms |-> <<ms[i][1], ms[i][2]>>]
\* cost of driving lens[i] (in any unit) along motion i: multipliers and switching cost in 1/8
RECURSIVE CostFrom(_, _, _, _, _, _)
CostFrom(ms, lens, i, rv, fw, sw8) ==
    IF i > Len(ms) THEN 0
    ELSE lens[i] * (IF ms[i][2] = 1 THEN fw ELSE rv)
         + (IF i > 1 /\ ms[i][2] # ms[i - 1][2] THEN sw8 ELSE 0)
         + CostFrom(ms, lens, i + 1, rv, fw, sw8)
Cost8(ms, lens, rv, fw, sw) == CostFrom(ms, lens, 1, rv, fw, sw * 10000)
=============================================================================
