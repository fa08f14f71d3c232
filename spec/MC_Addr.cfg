SPECIFICATION Spec
CONSTANTS Vals = {0, 1, 65535} Octets = {0, 9, 10, 127, 255}
INVARIANTS RoundTrip OwnFamilyOnly NoCapitals
CHECK_DEADLOCK FALSE
