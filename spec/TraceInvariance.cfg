SPECIFICATION CSpec
CONSTANT Failing <- FailInv
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
