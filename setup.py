#!/usr/bin/env python3
"""Builds all harnesses once, so that the first checks do not have to (optional: every check builds what it needs)."""
import check, table
for n in table.HARNESS: check.build(n); print("built", n)
