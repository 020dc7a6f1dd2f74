------------------------------- MODULE VPLib -------------------------------
(* Shared operators: sentinels of the trace encoding, arithmetic, mismatch reports. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN == 2000000001          \* not-a-number in a trace
Inf == 2000000002          \* +infinity (-Inf is -infinity)
IsFinite(x) == x < 2000000001 /\ x > -2000000001

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == IF IsFinite(a) /\ IsFinite(b) THEN Abs(a - b) <= tol ELSE a = b
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)

Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]

(* rounding division, for positive d *)
RDiv(a, d) == IF a >= 0 THEN (a + d \div 2) \div d ELSE -((-a + d \div 2) \div d)

(* Evaluate c; when false, say where and why (used by trace specifications only). *)
Chk(l, tag, c) == IF c THEN TRUE ELSE (PrintT(<<"MISMATCH", l, tag>>) /\ FALSE)
ChkEq(l, tag, expected, got) ==
  IF expected = got THEN TRUE ELSE (PrintT(<<"MISMATCH", l, tag, "specified", expected, "observed", got>>) /\ FALSE)
ChkNear(l, tag, expected, got, tol) ==
  IF Near(expected, got, tol) THEN TRUE
  ELSE (PrintT(<<"MISMATCH", l, tag, "specified", expected, "observed", got, "tolerance", tol>>) /\ FALSE)
=============================================================================
