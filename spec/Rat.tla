-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers.                                                   *)
(*                                                                           *)
(* TLC's integers are 32 bits wide and wrap or fail beyond, and the doubles  *)
(* of the implementation need 53 bit numerators.  The definitions below give *)
(* the meaning of every operator on <<numerator, denominator>> pairs; when   *)
(* TLC runs with java/RatOverrides.java on its class path the same operators *)
(* are evaluated on unbounded integers.  The MC_Rat model is run both ways.  *)
(*                                                                           *)
(* A "number" accepted by an operator is an integer, a rational, or (with    *)
(* the override only) a string: "p/q", a decimal, or a C hex float such as   *)
(* "0x1.8p+1", which is how the driver logs doubles without loss.            *)
EXTENDS Integers, Sequences

LOCAL Abs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
LOCAL IsPair(x) == DOMAIN x = {1, 2}
LOCAL Norm(n, d) == LET g == Gcd(Abs(n), Abs(d))
                        s == IF d < 0 THEN -1 ELSE 1
                    IN <<s * (n \div g), s * (d \div g)>>

R(x)       == IF x \in Int THEN <<x, 1>> ELSE x     \* coercion
RFrac(n,d) == IF d < 0 THEN <<(-n) \div Gcd(Abs(n), -d), (-d) \div Gcd(Abs(n), -d)>>
                       ELSE IF n < 0 THEN <<-(Abs(n) \div Gcd(Abs(n), d)), d \div Gcd(Abs(n), d)>>
                       ELSE <<n \div Gcd(n, d), d \div Gcd(n, d)>>
RFinite(x) == TRUE                                  \* FALSE for "nan" and "inf"
RNumeral(s) == TRUE                                 \* the text s is a decimal number
RAdd(a, b) == RFrac(a[1]*b[2] + b[1]*a[2], a[2]*b[2])
RSub(a, b) == RFrac(a[1]*b[2] - b[1]*a[2], a[2]*b[2])
RMul(a, b) == RFrac(a[1]*b[1], a[2]*b[2])
RDiv(a, b) == RFrac(a[1]*b[2], a[2]*b[1])
RNeg(a)    == <<-a[1], a[2]>>
RAbs(a)    == <<Abs(a[1]), a[2]>>
RSign(a)   == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLt(a, b)  == a[1]*b[2] < b[1]*a[2]
RLeq(a, b) == a[1]*b[2] <= b[1]*a[2]
REq(a, b)  == a[1]*b[2] = b[1]*a[2]
RFloor(a)  == a[1] \div a[2]
RStr(a)    == "p/q"        \* exact text
RDec(a)    == "decimal"    \* decimal text, for messages
RHex(a)    == "hex"        \* hex float of the nearest double
RRound(a)  == a            \* the nearest double
RSin(a)    == a            \* sine and cosine (radians), to double precision
RCos(a)    == a
RPi        == <<355, 113>>
RECURSIVE RSum(_)
RSum(s)    == IF s = <<>> THEN R(0) ELSE RAdd(R(Head(s)), RSum(Tail(s)))

a ++ b     == RAdd(a, b)
a -- b     == RSub(a, b)
a ** b     == RMul(a, b)
a // b     == RDiv(a, b)
a \prec b    == RLt(a, b)
a \preceq b  == RLeq(a, b)

RMin(a, b) == IF RLeq(a, b) THEN a ELSE b
RMax(a, b) == IF RLeq(a, b) THEN b ELSE a
\* |a - b| <= tol
RClose(a, b, tol) == RLeq(RAbs(RSub(a, b)), tol)
\* |a - b| <= tol * max(1, |b|)
RCloseRel(a, b, tol) == RLeq(RAbs(RSub(a, b)), RMul(tol, RMax(R(1), RAbs(b))))
=============================================================================
