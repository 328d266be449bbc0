"""Runtime-monitoring framework used by every check in /verif."""
