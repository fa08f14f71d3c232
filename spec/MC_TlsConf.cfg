SPECIFICATION Spec
CONSTANTS KeyOf <- KO Issuer <- IS Groups = {0} MaxC = 2 On = TRUE Reject = TRUE Vers = {3, 4} Certs = {0, 3} Trusted <- TrustAll Wants <- WantMany
INVARIANTS Fits Refused NamedCert Both
CHECK_DEADLOCK FALSE
