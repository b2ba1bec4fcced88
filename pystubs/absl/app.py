"""Stand-in for absl.app: parses the flags of the command line and calls main."""
import sys

from absl import flags


class UsageError(Exception):
    pass


def run(main, argv=None, flags_parser=None):
    rest = flags.FLAGS(argv or sys.argv)
    sys.exit(main(rest))
