SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Full = FALSE
INVARIANTS RoundTrip Canonical Reasons CutRefused Needed Derived
