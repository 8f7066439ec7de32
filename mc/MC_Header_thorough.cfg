SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Full = TRUE
INVARIANTS RoundTrip Canonical Reasons CutRefused Needed Derived
