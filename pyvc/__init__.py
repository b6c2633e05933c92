from . import core
