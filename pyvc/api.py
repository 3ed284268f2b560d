"""What a contract file imports."""
from .spec import *          # noqa
from .spec import Tri, Discard, same_angle, within, is_int, norm2, dot
from .core import contract, Registry
from .runtime import SymSeq, LoopSpec
from . import terms as T
from .terms import R, B, Unsupported
