------------------------------ MODULE Num ------------------------------
(* Arithmetic on the scaled integers in which quantities are recorded (1e-5 A, 1 uV, 1e-9 of charge, ...).                 *)
(* TLA+ integers are unbounded, TLC's are 32 bit: java/Num.java evaluates the products exactly in 64 bit and more, and   *)
(* clamps the result at +-2e9, like the recorder does.                                                                    *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RDiv(p, q) == IF p < 0 THEN -((2 * (-p) + q) \div (2 * q)) ELSE (2 * p + q) \div (2 * q)  \* nearest integer
MulDiv(a, b, c) == RDiv(a * b, c)                     \* a b / c
MulDiv2(a, b, c, d) == RDiv(a * b, c * d)             \* a b / (c d)
MulMulDiv(a, b, e, c, d) == RDiv(a * b * e, c * d)    \* a b e / (c d)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
SqrtMicro(x) == ISqrtFrom(x * 1000000, x + 1000)      \* square root of x / 10^6, times 10^6
\* natural logarithm of y / 10^8 for y >= 10^8, times 10^8
RECURSIVE Ln8(_)
Ln8(y) == IF y >= 200000000 THEN 69314718 + Ln8(y \div 2)
          ELSE LET t == RDiv((y - 100000000) * 100000000, y + 100000000)  t2 == RDiv(t * t, 100000000)
                   p(x) == RDiv(x * t2, 100000000) IN
               2 * (t + RDiv(p(t), 3) + RDiv(p(p(t)), 5) + RDiv(p(p(p(t))), 7) + RDiv(p(p(p(p(t)))), 9) + RDiv(p(p(p(p(p(t))))), 11) + RDiv(p(p(p(p(p(p(t)))))), 13))
AsinhPos(x) == LET X == x * 10  one == 100000000 * (100000000 + 0 * x)  s == X * X + one IN Ln8(X + ISqrtFrom(s, X + 100000000))
Asinh(x) == IF x < 0 THEN -AsinhPos(-x) ELSE AsinhPos(x)          \* of x / 10^7, times 10^8
Near(x, y, abs, rel) == Abs(x - y) <= abs + Abs(y) \div rel       \* rel: one part in rel
Clamped(x) == Abs(x) >= 2000000000
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(Head(s), MaxSeq(Tail(s)))
RECURSIVE MinSeq(_)
MinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(Head(s), MinSeq(Tail(s)))
=========================================================================
