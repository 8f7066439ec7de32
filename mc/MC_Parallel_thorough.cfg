SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Pictures <- Larger
INVARIANTS SameStreams NeverDry OnlyRight AllRight NoRaces
