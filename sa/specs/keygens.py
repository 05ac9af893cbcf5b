MODULE = "aiootp.keygens"

from aiootp.keygens.domain_kdf import *
from aiootp.keygens.passcrypt import *
from aiootp.keygens.mnemonics import *
from aiootp.keygens.curve_25519 import *
from aiootp.keygens.package_signer import *
from aiootp.keygens.package_verifier import *

subpackages = dict(curve_25519=curve_25519, passcrypt=passcrypt)
