MODULE = "aiootp.keygens.mnemonics"

from aiootp._typing import Typing as t
from aiootp._constants import BIG, INT_BYTES, MIN_KEY_BYTES, WORD_LIST
from aiootp._exceptions import Issue
from aiootp._gentools import abatch, batch
from aiootp.generics import Domains, acanonical_pack, canonical_pack
from aiootp.randoms import acsprng, csprng
from aiootp.keygens.domain_kdf import DomainKDF
from aiootp.keygens.passcrypt import Passcrypt



def keyed_choices(choices: t.Sequence[t.Any], selection_size: int, *, domain=b'', key):
    total_choices = len(choices)
    key = DomainKDF(domain, total_choices.to_bytes(INT_BYTES, BIG), selection_size.to_bytes(INT_BYTES, BIG), key=key).shake_256(size=16 * selection_size, aad=Domains.PRNG)
    for index in batch(key, size=16):
        yield choices[int.from_bytes(index, BIG) % total_choices]


def mnemonic(passphrase: bytes | None=None, size: int=8, *, salt: bytes | None=None, words=None, **passcrypt_settings):
    domain = Domains.MNEMONIC
    words = words or WORD_LIST
    salt = canonical_pack(salt or b'', domain)
    if passphrase:
        pcrypt = Passcrypt(**passcrypt_settings, tag_size=MIN_KEY_BYTES)
        key = pcrypt.new(passphrase, salt)
    elif not passcrypt_settings:
        key = csprng()
    else:
        mistake = ('passcrypt_settings', 'generating a random mnemonic key')
        raise Issue.unused_parameters(*mistake)
    return [*keyed_choices(words, size, domain=domain, key=key)]
