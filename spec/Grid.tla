-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* A landing grid: square, n x n cells; every cell remembers mean height,  *)
(* variance, number of points and landability. Only non-zero entries are   *)
(* represented. Lengths in millimetres, variances in mm^2.                 *)
(***************************************************************************)
EXTENDS VPLib

Zero == [c \in {} |-> 0]
At(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
Put(f, c, v) == IF v = 0 THEN [x \in DOMAIN f \ {c} |-> f[x]]
                ELSE [x \in DOMAIN f \union {c} |-> IF x = c THEN v ELSE f[x]]
CeilDiv(a, b) == (a + b - 1) \div b
NewGrid(size, cell) == [size |-> size, cell |-> cell, n |-> CeilDiv(size, cell),
                        mean |-> Zero, var |-> Zero, cnt |-> Zero, land |-> Zero]
ResetGrid(g) == [g EXCEPT !.mean = Zero, !.var = Zero, !.cnt = Zero, !.land = Zero]
Limits(g, x, y) == <<x - g.size \div 2, y - g.size \div 2, x + g.size \div 2, y + g.size \div 2>>   \* even sizes
Mix(f, h, w, den) ==     \* (w * f + (den - w) * h) / den, cell by cell
  LET D == DOMAIN f \union DOMAIN h v(c) == RDiv(w * At(f, c) + (den - w) * At(h, c), den)
  IN [c \in {d \in D : v(d) # 0} |-> v(c)]
Combine(g, prev, w, den) == [g EXCEPT !.mean = Mix(prev.mean, g.mean, w, den), !.var = Mix(prev.var, g.var, w, den)]
=============================================================================
