------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Executable IEEE-754 binary64 arithmetic for TLC.                        *)
(*                                                                         *)
(* Every operator below is overridden by hapua.Real64 (see /verif/java);   *)
(* the TLA+ bodies are only placeholders that make the module parse and    *)
(* give each operator its arity.  Integers stay exact TLC integers: an     *)
(* arithmetic operator applied to two integers gives an integer, applied   *)
(* to anything else it gives a real; "/" always gives a real.              *)
(*                                                                         *)
(* Arrays are functions with domain 0..n-1, as in the implementation.      *)
(***************************************************************************)
LOCAL R == INSTANCE Reals
Nat == R!Nat
Int == R!Int
a + b == R!+(a,b)
a - b == R!-(a,b)
-. a == 0 - a
a * b == 0
a / b == 0
a ^ b == 0
a \div b == 0
a % b == 0
a < b == TRUE
a > b == TRUE
a \leq b == TRUE
a \geq b == TRUE
a .. b == {}
REq(a,b) == TRUE              \* numerically equal (NaN is not equal to NaN)
IsNaN(a) == TRUE
IsFin(a) == TRUE
NaN == 0
Pi == 0
RMax(a,b) == 0
RMin(a,b) == 0
RAbs(a) == 0
Sqrt(a) == 0
Sin(a) == 0
Cos(a) == 0
Tanh(a) == 0
Asin(a) == 0
Atan(a) == 0
Atan2(a,b) == 0
Exp(a) == 0
Ln(a) == 0
Floor(a) == 0
ToF32(a) == 0                 \* rounded to binary32
Near(a,b,rt,at) == TRUE       \* |a-b| <= at + rt*max(|a|,|b|); NaN near NaN
VNear(f,g,rt,at) == TRUE      \* the same, elementwise, and equal sizes
Sum(f) == 0
MaxOf(f) == 0
MinOf(f) == 0
Size(f) == 0
V(f) == f                     \* evaluate a function once (same value)
Asc(S) == S                   \* elements of an integer set, ascending, zero-based
Rev(f) == f
Cat(f,g) == f
Slice(f,i,j) == f
RLoad(file) == file           \* a JSON file as a TLA+ value
ToJ(v) == v                   \* a TLA+ value as JSON text
Say(tag,v) == TRUE            \* prints "@@tag <json of v>"
=============================================================================
