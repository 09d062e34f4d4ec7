SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS CentroPos CentroZero CentroScale CentroFree CentroPairing AngPos AngFree AngZero ChiRight ChiStrict ChiTotal
CHECK_DEADLOCK FALSE
