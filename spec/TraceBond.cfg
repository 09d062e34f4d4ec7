SPECIFICATION CSpec
CONSTANT Failing <- FailBond
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
