MODULE = "aiootp.databases.dbkdf"

from aiootp._typing import Typing as t
from aiootp._constants import MIN_KEY_BYTES
from aiootp._exceptions import KeyAADIssue
from aiootp.keygens import DomainKDF



class DBKDF(DomainKDF, salt_label=b'database_domain_kdf_salt'):

    def __init__(self, domain, *data, key):
        if len(key) < MIN_KEY_BYTES:
            raise KeyAADIssue.invalid_key_size(len(key), MIN_KEY_BYTES)
        super().__init__(domain, *data, key=key)
