MODULE = "aiootp.randoms"

from aiootp.randoms.simple import *
from aiootp.randoms.threading_safe_entropy_pool import *
from aiootp.randoms.rng import *
from aiootp.randoms.entropy_daemon import *
from aiootp.randoms.ids import *

subpackages = dict(ids=ids)
