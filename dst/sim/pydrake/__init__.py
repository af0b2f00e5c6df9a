"""Simulated pydrake: only the nonlinear programs the car planners build."""
