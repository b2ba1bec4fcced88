"""Stand-in for absl.flags."""
import sys


class _Flags:
    def __init__(self):
        self.__dict__["defs"] = {}
        self.__dict__["values"] = {}
        self.__dict__["required"] = set()

    def define(self, name, default, parse, boolean=False):
        self.defs[name] = (parse, boolean)
        self.values[name] = parse(default) if isinstance(default, str) else default

    def __getattr__(self, name):
        try:
            return self.__dict__["values"][name]
        except KeyError:
            raise AttributeError(name)

    def __getitem__(self, name):
        return self

    def __setattr__(self, name, value):
        self.values[name] = value

    def __call__(self, argv, known_only=False):
        rest, i, seen = [argv[0]], 1, set()
        while i < len(argv):
            a = argv[i]
            i += 1
            if not a.startswith("-") or a == "--":
                rest.append(a)
                continue
            name, eq, val = a.lstrip("-").partition("=")
            if name not in self.defs and name.startswith("no") and name[2:] in self.defs and self.defs[name[2:]][1]:
                self.values[name[2:]] = False
                seen.add(name[2:])
                continue
            if name not in self.defs:
                sys.stderr.write("Unknown command line flag '%s'\n" % name)
                sys.exit(1)
            parse, boolean = self.defs[name]
            if boolean and not eq:
                self.values[name] = True
            else:
                if not eq:
                    val = argv[i]
                    i += 1
                self.values[name] = parse(val)
            seen.add(name)
        for r in self.required - seen:
            if self.values[r] is None:
                sys.stderr.write("Flag --%s must have a value other than None.\n" % r)
                sys.exit(1)
        return rest


FLAGS = _Flags()


def _bool(s):
    return s if isinstance(s, bool) else s.lower() in ("true", "1", "t", "yes", "y")


def DEFINE_string(name, default, help=None, **kw):
    FLAGS.define(name, default, str)


def DEFINE_integer(name, default, help=None, **kw):
    FLAGS.define(name, default, int)


def DEFINE_float(name, default, help=None, **kw):
    FLAGS.define(name, default, float)


def DEFINE_boolean(name, default, help=None, **kw):
    FLAGS.define(name, default, _bool, True)


DEFINE_bool = DEFINE_boolean


def DEFINE_list(name, default, help=None, **kw):
    FLAGS.define(name, default, lambda s: s if isinstance(s, list) else [x.strip() for x in s.split(",")] if s else [])


def DEFINE_enum(name, default, values, help=None, **kw):
    def parse(s):
        if s not in values:
            sys.stderr.write("bad value %s\n" % s)
            sys.exit(1)
        return s
    FLAGS.define(name, default, parse)


def mark_flag_as_required(name, **kw):
    FLAGS.required.add(name)


def mark_flags_as_required(names, **kw):
    for n in names:
        mark_flag_as_required(n)
