----------------------------- MODULE MCIntegrity -----------------------------
EXTENDS Integrity
All == {k \in [enc : {"plain", "copy", "packed"}, digest : BOOLEAN, gap : BOOLEAN, trailer : BOOLEAN, extra : {"none", "header", "decoded", "digest"}] :
            /\ k.enc = "plain" => ~k.digest /\ k.extra # "decoded"
            /\ k.extra = "digest" => k.digest}
=============================================================================
