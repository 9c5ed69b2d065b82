SPECIFICATION Spec
CONSTANTS
 MaxStations = 5
 MaxTrains = 5
 Theme = "any"
 DirectPct = 12
 PairPct = 20
 RepeatPct = 45
 EmptySw = 10
 StrayPct = 0
CHECK_DEADLOCK FALSE
