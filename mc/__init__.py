"""Bounded model checking harness for gempakio."""
