"""Stand-in for absl.logging: everything logged is kept in `records`."""
records = []
DEBUG, INFO, WARNING, ERROR = 1, 0, -1, -2


def _log(level):
    def f(msg, *args, **kw):
        try:
            text = msg % args if args else str(msg)
        except (TypeError, ValueError):
            text = str((msg,) + args)
        records.append((level, text))
    return f


debug, info, warning, warn, error, fatal, exception = map(_log, ["debug", "info", "warning", "warning", "error", "fatal", "error"])


def log(level, msg, *args):
    _log(str(level))(msg, *args)


def set_verbosity(v):
    pass
