"""Known findings: MATCH[id](replay) recognises the listed failure, PROBE[id](real) demonstrates it on the real code."""
MATCH = {}
PROBE = {}
