"""Makes JAX's own bookkeeping cheaper, because every simulated run is a new
instance of the library whose functions are all lowered again: one MLIR context
serves many modules, an executable read from the compilation cache stays in
memory, and source locations are left out of the modules.  What is computed stays
the same."""
import collections

import jax

_context = [None, 0]
_loaded = collections.OrderedDict()


def install():
    from jax._src import compilation_cache as cc
    from jax._src.interpreters import mlir

    jax.config.update("jax_traceback_in_locations_limit", 0)
    make = mlir.make_ir_context

    def make_ir_context():
        if _context[0] is None or _context[1] >= 60:
            _context[:] = [make(), 0]
        _context[1] += 1
        return _context[0]

    mlir.make_ir_context = make_ir_context
    get = cc.get_executable_and_time

    def get_executable_and_time(cache_key, compile_options, backend):
        r = _loaded.get(cache_key)
        if r is None:
            r = get(cache_key, compile_options, backend)
            if r[0] is not None:
                _loaded[cache_key] = r
                if len(_loaded) > 1500:
                    _loaded.popitem(last=False)
        else:
            _loaded.move_to_end(cache_key)
        return r

    cc.get_executable_and_time = get_executable_and_time
