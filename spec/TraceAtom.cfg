SPECIFICATION CSpec
CONSTANT Failing <- FailAtom
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
