MODULE = "aiootp.databases.dbdomains"

from aiootp._typing import Typing as t
from aiootp.generics import DomainEncoder



class DBDomains(DomainEncoder):
    _encode = lambda constant: DomainEncoder.encode_constant(constant, domain=b'database_constants', size=16)
    ROOT_KDF = _encode('root_kdf')
    ROOT_FILENAME = _encode('root_filename')
    ROOT_SALT = _encode('root_salt')
    METATAG = _encode('metatag')
    HMAC = _encode('hmac')
    GIST = _encode('profile_credential_gist')
    TMP_PREKEY = _encode('temporary_profile_prekey')
    PROFILE_LOGIN_KEY = _encode('profile_login_key')
    MANIFEST = _encode('manifest')
    FILENAME = _encode('filename')
    METATAG_KEY = _encode('metatag_key')
    DEVICE_SALT = _encode(b'device_salt')
    CIPHER = _encode('cipher')
