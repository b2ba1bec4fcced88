"""Stand-in: ordinary files."""
import os

Open = GFile = open
Exists = os.path.exists
