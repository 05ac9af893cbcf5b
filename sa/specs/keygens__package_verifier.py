MODULE = "aiootp.keygens.package_verifier"

import json
from pathlib import Path
from hashlib import sha384
from aiootp._typing import Typing as t
from aiootp._constants import CHECKSUM, CHECKSUMS, SIGNATURE, SIGNING_KEY
from aiootp._exceptions import Issue, PackageSignerIssue
from aiootp.generics import bytes_are_equal
from aiootp.keygens.curve_25519 import Ed25519



class PackageVerifier:
    _Hasher = sha384
    _Signer = Ed25519
    _CHECKSUM = CHECKSUM
    _CHECKSUMS = CHECKSUMS
    _SIGNATURE = SIGNATURE
    _SIGNING_KEY = SIGNING_KEY
    InvalidSignature = PackageSignerIssue.InvalidSignature

    def __init__(self, public_signing_key, *, path=None, verify_files=True):
        if public_signing_key.__class__ is not self._Signer:
            key = public_signing_key
            self._signing_key = self._Signer().import_public_key(key)
        else:
            self._signing_key = public_signing_key
        if verify_files:
            self._path = Path(path).absolute()
        elif path is not None:
            raise Issue.unused_parameters('path', 'not verifying files')

    @property
    def _summary_bytes(self):
        return json.dumps(self._summary_dictionary).encode()

    def _import_summary(self, summary: dict[str, t.JSONSerializable]):
        summary = self._summary_dictionary = {**summary}
        self._checksum = bytes.fromhex(summary.pop(self._CHECKSUM))
        self._signature = bytes.fromhex(summary.pop(self._SIGNATURE))
        calculated_checksum = self._Hasher(self._summary_bytes).digest()
        if not bytes_are_equal(calculated_checksum, self._checksum):
            raise Issue.invalid_value('package summary checksum')

    def _verify_file_checksums(self, summary: dict):
        path = self._path
        files = summary[self._CHECKSUMS]
        for file_path, purported_hexdigest in files.items():
            purported_digest = bytes.fromhex(purported_hexdigest)
            source_data = Path(path / file_path).read_bytes()
            digest = self._Hasher(source_data).digest()
            if not bytes_are_equal(purported_digest, digest):
                raise PackageSignerIssue.invalid_file_digest(file_path)

    def verify_summary(self, summary: dict[str, t.JSONSerializable] | t.JSONDeserializable):
        if summary.__class__ is not dict:
            summary = json.loads(summary)
        purported_signing_key = bytes.fromhex(summary[self._SIGNING_KEY])
        if purported_signing_key != self._signing_key.public_bytes:
            raise Issue.invalid_value("summary's public signing key")
        self._import_summary(summary)
        if hasattr(self, '_path'):
            self._verify_file_checksums(summary)
        self._signing_key.verify(self._signature, self._checksum)
