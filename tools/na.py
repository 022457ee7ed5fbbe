"""Reasons for the properties that have no check."""
DEFAULT = "No check has been built for it yet, so nothing is claimed."
REASON = {}
