"""Deterministic simulator for oidcmsg: scheduler, clock, file system, SQL and network seams."""
