------------------------------ MODULE QuantModel ------------------------------
(* Laws of the quantization modes and of recoding, for all small arguments.   *)
EXTENDS Quant, Json
Case == JsonDeserialize("model.json")
Modes == {"TRUNCATION", "ROUNDING", "MAGNITUDE_TRUNCATION", "JAMMING", "UNBIASED_ROUNDING",
          "UNBIASED_JAMMING", "UNBIASED_MAGNITUDE_TRUNCATION"}
VARIABLES mode, ovf, w, k, sent
vars == <<mode, ovf, w, k, sent>>
(* w bits; k extra fractional bits of the argument *)
Init == mode \in Modes /\ ovf \in {"WRAPPING", "SATURATION"} /\ w \in Range1(Case.w)
        /\ k \in Range1(Case.k) /\ sent = FALSE
Next == ~sent /\ sent' = TRUE /\ UNCHANGED <<mode, ovf, w, k>>
        /\ PrintT("TR|" \o ToJson([mode |-> mode, ovf |-> ovf, w |-> w, k |-> k]))
Spec == Init /\ [][Next]_vars
D == P2(k)
Args == (-3 * P2(w + k - 1))..(3 * P2(w + k - 1))
Q(n) == Quantized(mode, ovf, n, D, w)
Abs(x) == IF x < 0 THEN -x ELSE x
Laws ==
  \A n \in Args :
    LET r == Round(mode, n, D) IN
    /\ Q(n) \in (-P2(w - 1))..(P2(w - 1) - 1)
    /\ Abs(r * D - n) <= D
    /\ mode \in {"ROUNDING", "UNBIASED_ROUNDING"} => 2 * Abs(r * D - n) <= D
    /\ mode # "JAMMING" /\ n % D = 0 => r * D = n
    /\ mode \in {"UNBIASED_ROUNDING", "MAGNITUDE_TRUNCATION", "UNBIASED_JAMMING"}
         => Round(mode, -n, D) = -r
    /\ mode = "MAGNITUDE_TRUNCATION" => Abs(r) * D <= Abs(n)
    /\ mode \in {"JAMMING"} => r % 2 = 1
    /\ ovf = "WRAPPING" => (Q(n) - r) % P2(w) = 0
    /\ ovf = "SATURATION" /\ n < 3 * P2(w + k - 1) => Q(n) <= Q(n + 1)
=============================================================================
