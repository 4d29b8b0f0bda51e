package journal

// Accessors for the verification harness.
func ZZAppend(l []Interval, i Interval) []Interval { return appendInterval(l, i) }
func ZZContains(c CompletedIndices, d string, i Interval) bool {
	return containsCompletedInterval(c, d, i)
}
func ZZAdd(c CompletedIndices, d string, i Interval)                     { addCompletedInterval(c, d, i) }
func ZZNormalize(c CompletedIndices) (CompletedIndices, error)          { return normalizeCompletedIndices(c) }
func ZZParse(s string) (Interval, error)                                { return parseIntervalString(s) }
