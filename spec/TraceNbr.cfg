SPECIFICATION CSpec
CONSTANT Failing <- FailNbr
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
