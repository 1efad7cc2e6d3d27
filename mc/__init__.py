"""Small model-checking toolkit used by the checks in /verif/checks."""
