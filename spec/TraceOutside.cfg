SPECIFICATION CSpec
CONSTANT Failing <- FailOutside
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
