SPECIFICATION CSpec
CONSTANT Failing <- FailField
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
