SPECIFICATION CSpec
CONSTANT Failing <- FailSurvey
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
