SPECIFICATION Spec
CONSTANT Coord = {0, 1, 2, 3}
INVARIANTS JoinLeast JoinLaws PointIsBox MeetIsCommonPoint MeetSymmetric
CHECK_DEADLOCK FALSE
