SPECIFICATION CSpec
CONSTANT Failing <- FailTraj
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
