SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Pictures <- Small
INVARIANTS SameStreams NeverDry OnlyRight AllRight NoRaces
PROPERTIES Finishes
