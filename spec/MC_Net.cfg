SPECIFICATION Spec
CONSTANTS
 Step = 7
 Offset = 1
INVARIANTS FailedAlone NotReached HitAsksNobody FirstIsMine Bounded Stored NoStore Retried Emitted
CHECK_DEADLOCK FALSE
