from ..types import *  # noqa
from ..types import __getattr__, Array, Optional, Integer, NoneType  # noqa
