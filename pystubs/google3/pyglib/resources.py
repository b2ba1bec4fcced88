"""Stand-in: where the files are is given by the environment."""
import os


def GetARootDirWithAllResources():
    return os.environ["VERIF_RESOURCES"]
