"""Deterministic simulation of glimpse: seeded schedules, faults, replay."""
