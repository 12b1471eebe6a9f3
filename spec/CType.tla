-------------------------------- MODULE CType --------------------------------
(* isalnum and isupper in the C locale, over their whole domain (C27).       *)
EXTENDS SeqLib
Codes == -1..255                    \* EOF and every unsigned char
Digit(x) == x \in 48..57
Upper(x) == x \in 65..90
Lower(x) == x \in 97..122
Init0 == <<>>
Obs(c) == <<>>
Do(c, op, a) ==
  CASE op = "isalnum" -> {<<c, <<B(Digit(a[1]) \/ Upper(a[1]) \/ Lower(a[1]))>>>>}
    [] op = "isupper" -> {<<c, <<B(Upper(a[1]))>>>>}
    [] OTHER -> {}
Acts(c) == {<<op, x>> : op \in {"isalnum", "isupper"}, x \in Codes}
Inv(c) == Cardinality({x \in Codes : Digit(x) \/ Upper(x) \/ Lower(x)}) = 62 /\ Cardinality({x \in Codes : Upper(x)}) = 26
Step(c, op, a, r, d) == d = c /\ (op = "isupper" /\ r = <<1>> => Do(c, "isalnum", a) = {<<c, <<1>>>>})
=============================================================================
