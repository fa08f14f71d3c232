SPECIFICATION Spec
CONSTANTS KeyOf <- TKeyOf Issuer <- TIssuer
CONSTRAINT Report
CHECK_DEADLOCK FALSE
