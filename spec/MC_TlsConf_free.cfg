SPECIFICATION Spec
CONSTANTS KeyOf <- KO Issuer <- IS Groups = {0} MaxC = 2 On = TRUE Reject = FALSE Vers = {3, 4} Certs = {0} Trusted <- TrustNone Wants <- WantTwo
INVARIANTS Fits Refused NamedCert Both
CHECK_DEADLOCK FALSE
PROPERTY Freed
