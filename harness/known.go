package main

// isKnown tells whether a failure is one of the findings listed in /verif/known_findings.jsonl; there are none to be
// suppressed at present, all defects found so far were repaired.
func (h *Harness) isKnown(prop string, c *Case, r *Result, msg string) string { return "" }
