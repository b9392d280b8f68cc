SPECIFICATION Spec
CONSTANT MaxLen = 3
CONSTANT Chars = {0, 13, 10, 37, 38, 43, 45, 59, 61, 255}
INVARIANTS CodingRoundTrip AsQuery AsBody AsCookie AsPart AsFile AsResponse Dates
CHECK_DEADLOCK FALSE
