SPECIFICATION Spec
CONSTANT Vals = {"1"}
CHECK_DEADLOCK FALSE
INVARIANTS RelationHolds Frame ScalarsWritten EmptyMaskNothing RelationRejects ProjectionLaws
