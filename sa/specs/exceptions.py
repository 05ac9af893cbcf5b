MODULE = "aiootp._exceptions"

import asyncio
from pathlib import Path
from cryptography.exceptions import InvalidSignature
from aiootp._typing import Typing as t



def raise_exception(obj: Exception, /):
    raise obj


class Metadata:

    def __init__(self, value: t.Any, /):
        self.type = value.__class__
        self.size = len(value) if hasattr(value, '__len__') else None

    def __repr__(self, /):
        cls = self.__class__.__qualname__
        args = (f'type={self.type!r}', f'size={self.size!r}')
        return f'{cls}({', '.join(args)})'


class Ignore:

    def __init__(self, /, *exceptions: Exception, if_except=None, if_else=None, finally_run=None):
        placeholder = self._PlaceholderHandler()
        self.ignored_exceptions = exceptions
        self.except_code = if_except or placeholder
        self.else_code = if_else or placeholder
        self.finally_code = finally_run or placeholder
        self.bus = t.Namespace()
        self.error = None
        self.traceback = None

    def __repr__(self, /):
        return repr(getattr(self, 'error', None))

    def __enter__(self, /):
        return self

    def __exit__(self, /, exc_type: type | None=None, exc_value: Exception | None=None, traceback=None):
        try:
            if exc_type is None:
                self.else_code(self)
            else:
                self.error = exc_value
                self.traceback = traceback
                if issubclass(exc_type, self.ignored_exceptions):
                    return self.except_code(self)
                else:
                    raise exc_value
        finally:
            self.finally_code(self)


class TimestampExpired(TimeoutError):
    _DEFAULT_MESSAGE = 'Timestamp expired by <TIME> UNITS.'

    def __init__(self, units, expired_by: int, /, *a: t.Any):
        self.units = units
        self.expired_by = expired_by
        message = self._DEFAULT_MESSAGE.replace('UNITS', repr(units))
        super().__init__(message.replace('TIME', repr(expired_by)), *a)


class UndefinedRequiredAttributes(AttributeError):
    _MESSAGE_TEMPLATE = 'The following required attributes remained undefined after object initialization: UNDEFINED_ATTRIBUTES.'

    def __init__(self, /, *undefined_attributes):
        self.undefined_attributes = undefined_attributes
        super().__init__(self._MESSAGE_TEMPLATE.replace('UNDEFINED_ATTRIBUTES', repr(undefined_attributes)))


class MissingDeclaredVariables(AttributeError):
    _MESSAGE_TEMPLATE = ('The ', ' variable(s) were declared in the ', " but were't detected in the ", '')

    def __init__(self, /, *names, found_in, missed):
        msg = self._MESSAGE_TEMPLATE
        report = (repr(names), repr(found_in), repr(missed), '.')
        super().__init__(''.join((mold + part for mold, part in zip(msg, report))))


class InvalidCiphertextSize(ValueError):
    _MESSAGE_TEMPLATE = "The given ciphertext length of SIZE isn't a valid size."

    def __init__(self, size: int, /, *a: t.Any):
        self.size = size
        message = self._MESSAGE_TEMPLATE.replace('SIZE', repr(size))
        super().__init__(message, *a)


class ValidationIncomplete(AttributeError):
    _MESSAGE_TEMPLATE = "Can't produce a result before finalization."

    def __init__(self, /, *a: t.Any):
        super().__init__(self._MESSAGE_TEMPLATE, *a)


class IncoherentConcurrencyState(RuntimeError):
    _MESSAGE_TEMPLATE = 'A concurrent environment has indicated out-of-order execution, leading to an incorrect internal state.'

    def __init__(self, /, *a: t.Any):
        super().__init__(self._MESSAGE_TEMPLATE, *a)


class CipherStreamIsClosed(InterruptedError):
    _MESSAGE_TEMPLATE = 'The stream has been closed. Cannot add more `data` to the buffer of an already closed stream.'

    def __init__(self, /, *a: t.Any):
        super().__init__(self._MESSAGE_TEMPLATE, *a)


class DatabaseNotConnected(AttributeError):
    _MESSAGE_TEMPLATE = "Must first connect to the package signing session's secure database before it can be updated or queried."

    def __init__(self, /, *a: t.Any):
        super().__init__(self._MESSAGE_TEMPLATE, *a)


class PackageNotSigned(AttributeError):
    _MESSAGE_TEMPLATE = 'This version of the package must be signed before querying its signature.'

    def __init__(self, /, *a: t.Any):
        super().__init__(self._MESSAGE_TEMPLATE, *a)


class SigningKeyNotSet(AttributeError):
    _MESSAGE_TEMPLATE = "The `PackageSigner` instance's signing key hasn't been set."

    def __init__(self, /, *a: t.Any):
        super().__init__(self._MESSAGE_TEMPLATE, *a)


class KDFModeNotDeclared(AttributeError):
    _MESSAGE_TEMPLATE = 'KeyAADBundle objects need to be set to either sync or async modes prior to querying their derived keys.'

    def __init__(self, /, *a: t.Any):
        super().__init__(self._MESSAGE_TEMPLATE, *a)


class OverspecifiedVariable(TypeError):
    _MESSAGE_TEMPLATE = 'Specifying the type of the NAME variable is redundant or unnecessary.'

    def __init__(self, name, /, *a: t.Any):
        issue = self._MESSAGE_TEMPLATE
        super().__init__(issue.replace('NAME', repr(name)), *a)


class TypeUncheckableAtRuntime(TypeError):
    _MESSAGE_TEMPLATE = "The NAME variable's type was declared using VALUE_TYPE, which isn't checkable at runtime. Perhaps use a `Protocol` decorated with `@typing.runtime_checkable` instead?"

    def __init__(self, name, value_type: type, /, *a: t.Any):
        self.name = name
        self.value_type = value_type
        super().__init__(self._MESSAGE_TEMPLATE.replace('NAME', repr(name)).replace('VALUE_TYPE', repr(value_type)), *a)


class Issue:
    _INVALID_VALUE = 'Invalid NAME!'
    _INVALID_LENGTH = 'len(NAME) != LENGTH.'
    _VALUE_MUST = 'The NAME value must CONTEXT.'
    _MUST_SET_VALUE = 'Must set NAME for CONTEXT.'
    _STREAM_IS_EMPTY = 'An invalid emtpy stream was provided.'
    _VALUE_ALREADY_SET = 'The OBJECT is already set to CONTEXT.'
    _VALUE_MUST_BE_TYPE = 'The NAME value must be a TYPE object.'
    _VALUE_MUST_BE_SUBTYPE = 'The NAME value must match or subclass TYPE.'
    _EXCEEDED_BLOCKSIZE = 'Data block MUST NOT exceed BLOCKSIZE bytes.'
    _CANT_REASSIGN_ATTRIBUTE = "Can't re-assign the existing NAME attribute."
    _CANT_DEASSIGN_ATTRIBUTE = "Can't de-assign the existing NAME attribute."
    _UNUSED_PARAMETERS = 'The PARAMETERS parameters are not used when CONTEXT.'
    _BROKEN_POOL_RESTARTED = 'The process pool was broken & has now been restarted. Try again.'
    _SLOTS_CONFLICTS_WITH_CLASS_VARIABLES = "'CONFLICTS' in __slots__ conflicts with class variable"

    @classmethod
    def invalid_value(cls, name, problem='', /):
        issue = cls._INVALID_VALUE.replace('NAME', name)
        if problem:
            issue = f"{issue} The {name} can't be {problem}."
        return ValueError(issue)

    @classmethod
    def invalid_length(cls, name, length: int, /):
        issue = cls._INVALID_LENGTH.replace('NAME', name)
        return ValueError(issue.replace('LENGTH', repr(length)))

    @classmethod
    def value_must(cls, name, context: t.Any, /):
        issue = cls._VALUE_MUST.replace('NAME', repr(name))
        return ValueError(issue.replace('CONTEXT', str(context)))

    @classmethod
    def must_set_value(cls, name, context, /):
        issue = cls._MUST_SET_VALUE.replace('NAME', repr(name))
        return ValueError(issue.replace('CONTEXT', str(context)))

    @classmethod
    def stream_is_empty(cls, /):
        return ValueError(cls._STREAM_IS_EMPTY)

    @classmethod
    def value_already_set(cls, obj, context, /):
        issue = cls._VALUE_ALREADY_SET.replace('OBJECT', str(obj))
        return PermissionError(issue.replace('CONTEXT', str(context)))

    @classmethod
    def must_be_type(cls, name: Metadata | str, clss: t.Any, /):
        issue = cls._VALUE_MUST_BE_TYPE.replace('NAME', repr(name))
        return TypeError(issue.replace('TYPE', repr(clss)))

    @classmethod
    def must_be_subtype(cls, name: Metadata | str, clss: t.Any, /):
        issue = cls._VALUE_MUST_BE_SUBTYPE.replace('NAME', repr(name))
        return TypeError(issue.replace('TYPE', repr(clss)))

    @classmethod
    def exceeded_blocksize(cls, blocksize: int, /):
        issue = cls._EXCEEDED_BLOCKSIZE
        return OverflowError(issue.replace('BLOCKSIZE', repr(blocksize)))

    @classmethod
    def cant_reassign_attribute(cls, name, /):
        issue = cls._CANT_REASSIGN_ATTRIBUTE
        return PermissionError(issue.replace('NAME', repr(name)))

    @classmethod
    def cant_deassign_attribute(cls, name, /):
        issue = cls._CANT_DEASSIGN_ATTRIBUTE
        return PermissionError(issue.replace('NAME', repr(name)))

    @classmethod
    def unused_parameters(cls, params: t.Any, context, /):
        issue = cls._UNUSED_PARAMETERS.replace('PARAMETERS', repr(params))
        return ValueError(issue.replace('CONTEXT', str(context)))

    @classmethod
    def broken_pool_restarted(cls, /):
        return RuntimeError(cls._BROKEN_POOL_RESTARTED)

    @classmethod
    def slots_conflicts_with_class_variables(cls, conflicts, /):
        issue = cls._SLOTS_CONFLICTS_WITH_CLASS_VARIABLES
        return ValueError(issue.replace('CONFLICTS', repr(conflicts)))


class CanonicalIssue:
    _INFLATED_SIZE_DECLARATION = 'More items to unpack than data permits!'
    _ITEM_LENGTH_MISMATCH = 'The measured length of the canonically encoded item does not match its declared length.'
    _INVALID_PADDING = 'Invalid canonical encoding padding detected!'
    _DATA_LENGTH_BLOCKSIZE_MISMATCH = 'Multiple of data length != declared blocksize!'
    _MISSING_METADATA_ITEMS = 'The encoding lead to an unpacked data result without its required blocksize / pad declarations.'

    @classmethod
    def inflated_size_declaration(cls, /):
        return CanonicalEncodingError(cls._INFLATED_SIZE_DECLARATION)

    @classmethod
    def item_length_mismatch(cls, /):
        return CanonicalEncodingError(cls._ITEM_LENGTH_MISMATCH)

    @classmethod
    def invalid_padding(cls, /):
        return CanonicalEncodingError(cls._INVALID_PADDING)

    @classmethod
    def data_length_blocksize_mismatch(cls, /):
        return CanonicalEncodingError(cls._DATA_LENGTH_BLOCKSIZE_MISMATCH)

    @classmethod
    def missing_metadata_items(cls, /):
        return CanonicalEncodingError(cls._MISSING_METADATA_ITEMS)


class KeyAADIssue:
    _INVALID_KEY_SIZE = '`key` was KEY_SIZE bytes, but must be at least MIN_SIZE bytes.'
    _ALREADY_REGISTERED = 'The shmac has already been registered.'
    _MODE_ISNT_CORRECT = 'The KDF mode must be set to MODE to use MODE key derivation.'
    KDFModeNotDeclared = KDFModeNotDeclared

    @classmethod
    def invalid_key_size(cls, size: int, min_size: int, /):
        issue = cls._INVALID_KEY_SIZE.replace('MIN_SIZE', repr(min_size))
        return ValueError(issue.replace('KEY_SIZE', repr(size)))

    @classmethod
    def shmac_already_registered(cls, /):
        return PermissionError(cls._ALREADY_REGISTERED)

    @classmethod
    def mode_isnt_correct(cls, mode, /):
        issue = cls._MODE_ISNT_CORRECT.replace('MODE', repr(mode))
        return ValueError(issue)


class SHMACIssue:
    _NO_CIPHER_MODE_DECLARED = 'No cipher mode has been declared.'
    _ALREADY_FINALIZED = 'The validator has already been finalized.'
    _INVALID_IV_USAGE = 'The `iv` must be manually passed into the validator during *decryption*, & only during decryption.'
    _BLOCK_ID_IS_TOO_SMALL = 'A block id of SIZE bytes is too small. It must be at least MIN bytes to securely authenticate a block.'
    _BLOCK_ID_IS_TOO_BIG = 'A block id of SIZE bytes is too big. It can be at most MAX bytes.'
    _INVALID_SHMAC = 'Invalid StreamHMAC hash for the given ciphertext.'
    _INVALID_BLOCK_ID = 'Invalid next block ID hash of the supplied ciphertext block.'

    @classmethod
    def no_cipher_mode_declared(cls, /):
        return PermissionError(cls._NO_CIPHER_MODE_DECLARED)

    @classmethod
    def already_finalized(cls, /):
        return PermissionError(cls._ALREADY_FINALIZED)

    @classmethod
    def invalid_iv_usage(cls, /):
        return PermissionError(cls._INVALID_IV_USAGE)

    @classmethod
    def block_id_is_too_small(cls, size: int, min_size: int, /):
        issue = cls._BLOCK_ID_IS_TOO_SMALL.replace('SIZE', repr(size))
        issue = issue.replace('MIN', repr(min_size))
        return PermissionError(issue)

    @classmethod
    def block_id_is_too_big(cls, size: int, max_size: int, /):
        issue = cls._BLOCK_ID_IS_TOO_BIG.replace('SIZE', repr(size))
        issue = issue.replace('MAX', repr(max_size))
        return PermissionError(issue)

    @classmethod
    def invalid_shmac(cls, /):
        return InvalidSHMAC(cls._INVALID_SHMAC)

    @classmethod
    def invalid_block_id(cls, /):
        return InvalidBlockID(cls._INVALID_BLOCK_ID)


class PasscryptIssue:
    _IMPROPER_PASSPHRASE = "The given passphrase is too short, at least NEED more characters need to be added. \nTry using aiootp.mnemonic, it can help in generating a strong passphrase.\n _____________________________________\n|                                     |\n|            Usage Example:           |\n|_____________________________________|\n\nmy_new_passphrase = b'-'.join(aiootp.mnemonic())\n\nprint(my_new_passphrase)\nb'review-letter-blast-giant-connect-ring-balcony-frown'"
    _IMPROPER_SALT = 'len(salt) must be >= MIN_SALT_SIZE and <= MAX_SALT_SIZE'
    _INVALID_MB = 'mb:MB must be int >= MIN_MB and <= MAX_MB'
    _INVALID_CPU = 'cpu:CPU must be int >= MIN_CPU and <= MAX_CPU'
    _INVALID_CORES = 'cores:CORES must be int >= MIN_CORES and <= MAX_CORES'
    _INVALID_TAG_SIZE = 'tag_size:SIZE must be int >= MIN_TAG_SIZE'
    _INVALID_SALT_SIZE = 'salt_size:SIZE must be int >= MIN_SALT_SIZE and <= MAX_SALT_SIZE'
    _UNTRUSTED_RESOURCE_CONSUMPTION = "The PARAMETER parameter was blocked from being processed because it fell outside of the allowed range of resource consumption set by the verification method. To continue verifying the provided hash, explicit permission must be given in the form of a `builtins.range` object which includes the value VALUE.\n\n _____________________________________\n|                                     |\n|            Usage Example:           |\n|_____________________________________|\n\nfrom aiootp import Passcrypt\n\nallowed_resource_consumption = dict(\n    mb_allowed=range(16, 256),  # Less than 256 MiB allowed\n    cpu_allowed=range(2, 8),    # Less than 8 complexity allowed\n    cores_allowed=range(1, 5),  # Less than 5 processes allowed\n)\ntry:\n    Passcrypt.verify(hashed_pw, pw, **allowed_resource_consumption)\nexcept ResourceWarning as danger:\n    admin.log(danger)\n    hard_limits_exceeded = (\n        danger.requested_resources.mb > 512\n        or danger.requested_resources.cpu > 11\n        or danger.requested_resources.cores > 8\n    )\n    below_security_guidelines = (\n        danger.requested_resources.mb < 16\n        or danger.requested_resources.cpu < 2\n    )\n    if hard_limits_exceeded:\n        raise danger\n    elif below_security_guidelines:\n        raise PermissionError('Minimum hash difficulty unmet.')\n    Passcrypt.verify(hashed_pw, pw)\n"
    _VERIFICATION_FAILED = 'Passphrase verification failed! The hash of the passphrase & the passcrypt hash did not match!'

    @classmethod
    def improper_passphrase(cls, metadata: Metadata, /):
        from .keygens.passcrypt.config import passcrypt_spec as c
        if metadata.type is not bytes:
            return Issue.must_be_type('`passphrase`', bytes)
        issue = cls._IMPROPER_PASSPHRASE
        missing = c.MIN_PASSPHRASE_BYTES - metadata.size
        error = ImproperPassphrase(issue.replace('NEED', str(missing)))
        error.missing = missing
        return error

    @classmethod
    def improper_salt(cls, metadata: Metadata, /):
        from .keygens.passcrypt.config import passcrypt_spec as c
        if metadata.type is not bytes:
            return Issue.must_be_type('`salt`', bytes)
        return ValueError(cls._IMPROPER_SALT.replace('MIN_SALT_SIZE', repr(c.MIN_SALT_SIZE)).replace('MAX_SALT_SIZE', repr(c.MAX_SALT_SIZE)))

    @classmethod
    def improper_aad(cls, /):
        return Issue.must_be_type('`aad`', bytes)

    @classmethod
    def invalid_mb(cls, mb: int, /):
        from .keygens.passcrypt.config import passcrypt_spec as c
        if mb.__class__ is not int:
            return Issue.must_be_type('`mb`', int)
        return ValueError(cls._INVALID_MB.replace('MIN_MB', repr(c.MIN_MB)).replace('MAX_MB', repr(c.MAX_MB)).replace('MB', repr(mb)))

    @classmethod
    def invalid_cpu(cls, cpu: int, /):
        from .keygens.passcrypt.config import passcrypt_spec as c
        if cpu.__class__ is not int:
            return Issue.must_be_type('`cpu`', int)
        return ValueError(cls._INVALID_CPU.replace('MIN_CPU', repr(c.MIN_CPU)).replace('MAX_CPU', repr(c.MAX_CPU)).replace('CPU', repr(cpu)))

    @classmethod
    def invalid_cores(cls, cores: int, /):
        from .keygens.passcrypt.config import passcrypt_spec as c
        if cores.__class__ is not int:
            return Issue.must_be_type('`cores`', int)
        return ValueError(cls._INVALID_CORES.replace('MIN_CORES', repr(c.MIN_CORES)).replace('MAX_CORES', repr(c.MAX_CORES)).replace('CORES', repr(cores)))

    @classmethod
    def invalid_tag_size(cls, tag_size: int, /):
        from .keygens.passcrypt.config import passcrypt_spec as c
        if tag_size.__class__ is not int:
            return Issue.must_be_type('`tag_size`', int)
        return ValueError(cls._INVALID_TAG_SIZE.replace('MIN_TAG_SIZE', repr(c.MIN_TAG_SIZE)).replace('SIZE', repr(tag_size)))

    @classmethod
    def invalid_salt_size(cls, salt_size: int, /):
        from .keygens.passcrypt.config import passcrypt_spec as c
        if salt_size.__class__ is not int:
            return Issue.must_be_type('`salt_size`', int)
        return ValueError(cls._INVALID_SALT_SIZE.replace('MIN_SALT_SIZE', repr(c.MIN_SALT_SIZE)).replace('MAX_SALT_SIZE', repr(c.MAX_SALT_SIZE)).replace('SIZE', repr(salt_size)))

    @classmethod
    def untrusted_resource_consumption(cls, parameter, header: t.Mapping[str, int], /):
        value = header[parameter]
        issue = cls._UNTRUSTED_RESOURCE_CONSUMPTION
        issue = issue.replace('PARAMETER', repr(parameter))
        danger = ResourceWarning(issue.replace('VALUE', repr(value)))
        danger.requested_resources = header
        danger.parameter = parameter
        danger.value = value
        return danger

    @classmethod
    def verification_failed(cls, /):
        return InvalidPassphrase(cls._VERIFICATION_FAILED)


class DatabaseIssue:
    _FILE_NOT_FOUND = 'The NAME filename was not located.'
    _NO_EXISTING_METATAG = 'No metatag database named TAG.'
    _MISSING_PROFILE = "Profile doesn't exist or is corrupt."
    _TAG_FILE_DOESNT_EXIST = "TAG tag data isn't in the database."

    @classmethod
    def file_not_found(cls, filename, /):
        issue = cls._FILE_NOT_FOUND
        return LookupError(issue.replace('NAME', repr(filename)))

    @classmethod
    def no_existing_metatag(cls, tag, /):
        issue = cls._NO_EXISTING_METATAG
        return LookupError(issue.replace('TAG', repr(tag)))

    @classmethod
    def tag_file_doesnt_exist(cls, tag, /):
        issue = cls._TAG_FILE_DOESNT_EXIST
        return LookupError(issue.replace('TAG', repr(tag)))


class PackageSignerIssue:
    _INVALID_FILE_DIGEST = "The summary & the hash digest of the given file don't match: FILENAME."
    _UNSYNCED_PACKAGE_SIGNATURE = 'The calculated package signature is out of sync with the current checksum of the package summary.'
    DatabaseNotConnected = DatabaseNotConnected
    InvalidSignature = InvalidSignature
    PackageNotSigned = PackageNotSigned
    SigningKeyNotSet = SigningKeyNotSet

    @classmethod
    def invalid_file_digest(cls, filename: Path | str, /):
        issue = cls._INVALID_FILE_DIGEST
        return InvalidDigest(issue.replace('FILENAME', repr(filename)))

    @classmethod
    def unsynced_package_signature(cls, /):
        return ValueError(cls._UNSYNCED_PACKAGE_SIGNATURE)


class CanonicalEncodingError(ValueError):
    pass


class AuthenticationFailed(ValueError):
    pass


class InvalidBlockID(AuthenticationFailed):
    pass


class InvalidSHMAC(AuthenticationFailed):
    pass


class InvalidDigest(AuthenticationFailed):
    pass


class InvalidPassphrase(AuthenticationFailed):
    pass


class ImproperPassphrase(ValueError):
    pass


class InvalidStateTransition(RuntimeError):
    pass
