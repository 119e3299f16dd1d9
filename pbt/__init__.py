"""Property based checks of larryturner/diamondback."""
