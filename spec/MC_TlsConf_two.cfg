SPECIFICATION Spec
CONSTANTS KeyOf <- KO Issuer <- IS Groups = {0, 1} MaxC = 2 On = TRUE Reject = TRUE Vers = {4} Certs = {0} Trusted <- TrustNone Wants <- WantOne
INVARIANTS Fits Refused NamedCert Both
CHECK_DEADLOCK FALSE
