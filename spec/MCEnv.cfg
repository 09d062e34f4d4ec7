SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS CentroPos CentroZero CentroScale CentroFree CentroPairing AngPos AngFree AngZero ChiRight ChiStrict ChiTotal
CHECK_DEADLOCK FALSE
