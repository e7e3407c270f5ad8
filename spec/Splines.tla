------------------------------ MODULE Splines ------------------------------
(* Splines as functions, in integer arithmetic.                               *)
(* A spline is [k |-> knots, d |-> degree, c |-> coefficients]: knots are      *)
(* integers, 1-based; B-spline i lives on [k[i], k[i+d+1]].                    *)
EXTENDS Integers, Sequences, FiniteSets
SRd(a, b) == IF b < 0 THEN -((a + ((-b) \div 2)) \div (-b)) ELSE (a + (b \div 2)) \div b
N(s) == Len(s.c)
Lo(s) == s.k[s.d + 1]
Hi(s) == s.k[N(s) + 1]
\* the piece in force just right of x (of the last one: at its end and beyond; of the first one: before)
RECURSIVE SpanR(_, _, _), SpanL(_, _, _)
SpanR(s, x, j) == IF j = s.d + 1 THEN j
                  ELSE IF s.k[j] < s.k[j+1] /\ s.k[j] <= x THEN j ELSE SpanR(s, x, j-1)
SpanL(s, x, j) == IF j = s.d + 1 THEN j
                  ELSE IF s.k[j] < s.k[j+1] /\ s.k[j] < x THEN j ELSE SpanL(s, x, j-1)
RECURSIVE FirstSpan(_, _)
FirstSpan(s, j) == IF s.k[j] < s.k[j+1] THEN j ELSE FirstSpan(s, j+1)
Right(s, x) == LET j == SpanR(s, x, N(s)) IN IF s.k[j] < s.k[j+1] THEN j ELSE FirstSpan(s, j)
Left(s, x) == LET j == SpanL(s, x, N(s)) IN IF s.k[j] < s.k[j+1] THEN j ELSE FirstSpan(s, j)
\* de Boor: the polynomial of piece j, anywhere
RECURSIVE Rows(_, _, _, _, _)
Rows(s, j, x, r, row) ==
   IF r > s.d THEN row[1]
   ELSE Rows(s, j, x, r + 1, [q \in 1..(s.d + 1 - r) |->
        LET i == j - s.d + r + q - 1
            den == s.k[i + s.d + 1 - r] - s.k[i]
            num == x - s.k[i]
        IN SRd(row[q] * (den - num) + row[q+1] * num, den)])
Poly(s, j, x) == Rows(s, j, x, 1, [q \in 1..(s.d + 1) |-> s.c[j - s.d + q - 1]])
At(s, x) == Poly(s, Right(s, x), x)                 \* from the right
AtL(s, x) == Poly(s, Left(s, x), x)                 \* from the left
\* derivative with respect to knot units times m
Deriv(s, m) == [k |-> SubSeq(s.k, 2, Len(s.k) - 1), d |-> s.d - 1,
   c |-> [i \in 1..(N(s) - 1) |-> LET den == s.k[i + s.d + 1] - s.k[i + 1] IN
            IF den = 0 THEN 0 ELSE SRd(s.d * m * (s.c[i+1] - s.c[i]), den)]]
WellFormed(s) == /\ Len(s.k) = Len(s.c) + s.d + 1
                 /\ \A i \in 1..(Len(s.k) - 1) : s.k[i] <= s.k[i+1]
Clamped(s, a, b) == /\ \A i \in 1..(s.d + 1) : s.k[i] = a
                    /\ \A i \in 1..(s.d + 1) : s.k[Len(s.k) + 1 - i] = b
\* Boehm: the same function with one more knot u
Insert(s, u) == LET j == SpanR(s, u, N(s)) IN
   [k |-> SubSeq(s.k, 1, j) \o <<u>> \o SubSeq(s.k, j + 1, Len(s.k)), d |-> s.d,
    c |-> [i \in 1..(N(s) + 1) |->
        IF i <= j - s.d THEN s.c[i]
        ELSE IF i > j THEN s.c[i-1]
        ELSE LET den == s.k[i + s.d] - s.k[i] num == u - s.k[i] IN
             SRd(s.c[i-1] * (den - num) + s.c[i] * num, den)]]
RECURSIVE InsertN(_, _, _)
InsertN(s, u, m) == IF m = 0 THEN s ELSE InsertN(Insert(s, u), u, m - 1)
Mult(s, u) == Cardinality({i \in 1..Len(s.k) : s.k[i] = u})
\* the piece between a and b, clamped
Crop(s, a, b) == LET x == InsertN(s, a, s.d + 1 - Mult(s, a))
                     y == InsertN(x, b, s.d + 1 - Mult(x, b))
                     i1 == CHOOSE i \in 1..Len(y.k) : y.k[i] = a /\ \A q \in 1..(i-1) : y.k[q] < a
                     i2 == CHOOSE i \in 1..Len(y.k) : y.k[i] = b /\ \A q \in (i+1)..Len(y.k) : y.k[q] > b
                 IN [k |-> SubSeq(y.k, i1, i2), d |-> s.d, c |-> SubSeq(y.c, i1, i2 - s.d - 1)]
==============================================================================
