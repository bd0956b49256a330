"""Every fresh instance of the library builds a unit registry of its own from
pint's own table of units. Reading that table again each time is most of what a
"process restart" costs and says nothing about the library: the parsed table (of
immutable definitions) and the lookup tables pint derives from it are kept, and
every registry gets its own copy of the latter."""
import os
import pathlib

import pint
from pint.delegates.txt_defparser.defparser import DefParser
from pint.facets.plain.registry import GenericPlainRegistry as PlainRegistry
from pint.facets.plain.registry import RegistryCache

from . import disk

ROOT = os.path.dirname(pint.__file__) + os.sep
_projects = {}  # (path, mtime, size) -> parsed project
_defs = {}  # id(project) -> its definitions
_caches = {}


def install():
    if getattr(DefParser, "_sim", None):
        return
    DefParser._sim = True
    parse, walk, build = DefParser.parse_file, DefParser.iter_parsed_project, PlainRegistry._build_cache

    def parse_file(self, filename, cfg=None):
        c = self._default_config
        if disk.PLAN is not None or cfg is not None or self._diskcache is not None or not isinstance(filename, (str, pathlib.Path)) or getattr(c, "non_int_type", None) is not float or not str(filename).startswith(ROOT):
            return parse(self, filename, cfg)
        try:
            st = os.stat(filename)
        except OSError:
            return parse(self, filename, cfg)
        k = (str(filename), st.st_mtime_ns, st.st_size)
        if k not in _projects:
            _projects[k] = parse(self, filename, cfg)
            _defs[id(_projects[k])] = list(walk(self, _projects[k]))
        return _projects[k]

    def iter_parsed_project(self, project):
        d = _defs.get(id(project))
        return iter(d) if d is not None else walk(self, project)

    def _build_cache(self, loaded_files=None):
        if id(loaded_files) not in _defs or self._diskcache is not None:
            return build(self, loaded_files)
        k = (id(loaded_files), self.non_int_type, self.case_sensitive, len(self._units), len(self._prefixes), len(self._suffixes))
        if k not in _caches:
            had = set(self._units)
            r = build(self, loaded_files)
            # looking units up also defines the prefixed ones that pint's table mentions
            _caches[k] = copied(self._cache), [(n, self._units[n]) for n in self._units if n not in had]
            return r
        c, more = _caches[k]
        self._cache = copied(c)
        for n, d in more:
            self._units[n] = d
        return self._cache

    DefParser.parse_file = parse_file
    DefParser.iter_parsed_project = iter_parsed_project
    PlainRegistry._build_cache = _build_cache


def copied(c):
    n = RegistryCache()
    for a, v in vars(c).items():
        v = dict(v)
        if a == "dimensional_equivalents":
            v = {k: set(x) for k, x in v.items()}
        setattr(n, a, v)
    return n
