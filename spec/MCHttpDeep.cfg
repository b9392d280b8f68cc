SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT Chars = {0, 13, 10, 32, 37, 38, 43, 45, 46, 58, 59, 61, 63, 65, 97, 52, 102, 255}
INVARIANTS CodingRoundTrip AsQuery AsBody AsCookie AsPart AsFile AsResponse Dates
CHECK_DEADLOCK FALSE
