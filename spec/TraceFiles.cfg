SPECIFICATION CSpec
CONSTANT Failing <- FailFiles
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
