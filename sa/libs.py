"""The library models the abstract interpreter relies on."""
from .values import *
from . import lib_misc
from .lib_core import CoreMixin
from .lib_np import NumpyMixin
from .lib_io import IOMixin, FS
from .lib_misc import MiscMixin


class Libs(CoreMixin, NumpyMixin, IOMixin, MiscMixin):
    generic_base = BType('typing.Generic')

    def install(self, I):
        I.fs = FS()
        I.blobs = {}

        def effect(kind, path, info=None):
            I.effects.append((kind, path, info, I.where()))
        I.effect = effect
        self.install_core(I)

    def module(self, I, name):
        if name in I.modules:
            return I.modules[name]
        f = getattr(self, 'mod_' + name.replace('.', '_'), None)
        if f is None:
            top = name.split('.')[0]
            if top in ('dsch',):
                raise I.exc('ModuleNotFoundError', name)
            raise Unsupported('library module ' + name)
        return f(I)

    def module_attr(self, I, mod, name):
        if mod.name == 'numpy' and name in self.NP_REMOVED:
            raise I.exc('AttributeError', "module 'numpy' has no attribute "
                        "'%s'" % name)
        if name == '__name__':
            return mod.name
        sub = 'mod_' + (mod.name + '.' + name).replace('.', '_')
        if hasattr(self, sub):
            return I.import_module(mod.name + '.' + name)
        raise Unsupported('%s.%s' % (mod.name, name))
