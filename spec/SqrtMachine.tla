---------------------------- MODULE SqrtMachine ----------------------------
(***************************************************************************)
(* Design of the integer square root on W-bit words: an estimate within    *)
(* Error of the root is corrected upward, then downward; and a bisection   *)
(* for the compile-time version. Words wrap, as in the code. Clamped tells *)
(* whether the upward loop stops at the root of the largest word, and      *)
(* Margin what is added to x / 2 as the upper end of the bisection.        *)
(***************************************************************************)
EXTENDS Naturals, TLC
CONSTANTS W, Error, Clamped, Margin

Words == 0..(2 ^ W - 1)
Wrap(n) == n % (2 ^ W)
IsRoot(r, x) == r * r <= x /\ x < (r + 1) * (r + 1)
Root(x) == CHOOSE r \in 0..(2 ^ (W \div 2)) : IsRoot(r, x)
RootMax == Root(2 ^ W - 1)

VARIABLES x, r, pc, lo, hi, steps
vars == <<x, r, pc, lo, hi, steps>>

Init == /\ x \in Words /\ steps = 0
        /\ \/ /\ pc = "up" /\ lo = 0 /\ hi = 0
              /\ r \in {e \in Words : e <= Root(x) + Error /\ Root(x) <= e + Error}
           \/ pc = "bisect" /\ r = 0 /\ lo = 0 /\ hi = Wrap((x \div 2) + Margin)
Up == /\ pc = "up"
      /\ IF (r < RootMax \/ ~Clamped) /\ Wrap(r * r) < x
         THEN r' = Wrap(r + 1) /\ pc' = pc ELSE r' = r /\ pc' = "down"
      /\ UNCHANGED <<x, lo, hi>> /\ steps' = steps + 1
Down == /\ pc = "down"
        /\ IF r > RootMax \/ Wrap(r * r) > x
           THEN r' = Wrap(r + 2 ^ W - 1) /\ pc' = pc ELSE r' = r /\ pc' = "done"
        /\ UNCHANGED <<x, lo, hi>> /\ steps' = steps + 1
Mid == Wrap(lo + hi + 1) \div 2
Bisect == /\ pc = "bisect"
          /\ IF lo = hi THEN r' = lo /\ pc' = "done" /\ UNCHANGED <<lo, hi>>
             ELSE IF x \div Mid < Mid THEN hi' = Mid - 1 /\ UNCHANGED <<lo, r, pc>>
             ELSE lo' = Mid /\ UNCHANGED <<hi, r, pc>>
          /\ UNCHANGED x /\ steps' = steps + 1
Done == pc = "done" /\ UNCHANGED vars
Next == Up \/ Down \/ Bisect \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exact == pc = "done" => IsRoot(r, x)
\* the correction takes no more steps than the estimate is off, the bisection halves
Fast == steps <= 2 * Error + W + 6
NoDivisionByZero == pc = "bisect" /\ lo # hi => Mid > 0
Brackets == pc = "bisect" => lo * lo <= x /\ lo <= hi /\ x < (hi + 1) * (hi + 1)
Finishes == <>(pc = "done")
=============================================================================
