"""Makes Beam's pipeline construction cheaper in the replay workers.

Only memoises introspection inside apache_beam (not part of the code under
test): the options parser, function signatures and the search for stateful
DoFns.
"""

import copy
import inspect
import sys
import types

_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    try:
        _install()
    except Exception:  # a different Beam: nothing to gain, nothing lost
        pass


def _install():
    from apache_beam.options import pipeline_options as po
    from apache_beam.transforms import userstate, core

    init = po.PipelineOptions.__init__
    memo = {}

    def fast_init(self, flags=None, **kwargs):
        if isinstance(flags, str):
            return init(self, flags, **kwargs)
        key = (type(self), tuple(flags) if flags is not None else None,
               tuple(sys.argv) if flags is None else ())
        if key not in memo:
            init(self, flags)
            memo[key] = copy.deepcopy(self._visible_options)
        self._flags = flags
        self._visible_options = copy.deepcopy(memo[key])
        self._all_options = kwargs
        for name in self._visible_option_list():
            if name not in self._all_options:
                self._all_options[name] = getattr(self._visible_options, name)

    po.PipelineOptions.__init__ = fast_init

    specs = userstate.get_dofn_specs
    plain = set()

    def fast_specs(dofn):
        t = type(dofn)
        if t in plain:
            return set(), set()
        r = specs(dofn)
        if not r[0] and not r[1]:
            plain.add(t)
        return r

    userstate.get_dofn_specs = fast_specs

    args = core.get_function_args_defaults
    cache = {}

    def fast_args(f):
        if isinstance(f, types.MethodType):
            key = (f.__func__, type(f.__self__))
            if not inspect.isfunction(f.__func__) or hasattr(f.__func__, "__wrapped__"):
                return args(f)
        elif inspect.isfunction(f) and not hasattr(f, "__wrapped__"):
            return args(f)
        else:
            return args(f)
        if key not in cache:
            cache[key] = args(f)
        a, d = cache[key]
        return list(a), list(d)

    core.get_function_args_defaults = fast_args
