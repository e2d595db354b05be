INIT Init
NEXT Next
CONSTANTS MaxT = 2 MaxSteps = 4
INVARIANTS RelativeLaw SensorLaw AdjointLaw CovarianceLaws
CHECK_DEADLOCK FALSE
VIEW vars
