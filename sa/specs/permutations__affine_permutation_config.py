MODULE = "aiootp._permutations.affine_permutation_config"

from math import log2
from aiootp._typing import Typing as t
from aiootp._constants import datasets, BIG
from aiootp._exceptions import Issue
from aiootp._gentools import count as counter
from aiootp.commons import Config
from aiootp.generics import Domains



class AffinePermutationConfig(Config):
    slots_types = dict(AAD=bytes, SIZE=int, KEY_SIZE=int, MAX=int, PRIME=int, MULTIPLICATIVE_KEY=int, INVERSE_KEY=int)

    def _process_size(self, size: int):
        if 4096 >= size > 0:
            return size
        else:
            raise Issue.value_must('size', 'be > 0 and <= 4096')

    @staticmethod
    def _make_multiplier_mask(bit_length: int):
        top_bit = 1 << bit_length // 2
        mask = top_bit - 1
        return (top_bit, mask)

    @staticmethod
    def _count_bit_switches(number: int):
        count = 0
        binary = f'{number:b}'
        current = binary[:1]
        for bit in binary:
            if bit != current:
                count += 1
                current = bit
        return count

    @classmethod
    def is_likely_safe_multiplier(cls, multiplier: int, prime: int):
        if prime < 257:
            raise Issue.value_must('prime', 'be > 256')
        prime_size = prime.bit_length()
        sqrt_prime = 1 << prime_size // 2
        bit_flips = cls._count_bit_switches(multiplier)
        span = int(log2(prime_size) - 1)
        max_flips, min_flips = (bit_flips + span, bit_flips - span)
        return bool(multiplier & 1 and sqrt_prime << 2 > multiplier > sqrt_prime and (max_flips > prime_size / 4 > min_flips))

    def _derive_new_multiplier(self, prime: int):

        def encode(i: int, prime: int):
            hash_value = Domains.encode_constant(f'multiplicative_key_{i}_{prime}', domain=b'affine_permutation_constant', aad=self.AAD, size=self.SIZE)
            return int.from_bytes(hash_value, BIG)
        top_bit, mask = self._make_multiplier_mask(prime.bit_length())
        for i in counter():
            key = top_bit | encode(i, prime) & mask
            if self.is_likely_safe_multiplier(key, prime):
                return key

    def __init__(self, *, size: int, aad=b''):
        self.AAD = aad
        self.SIZE = self._process_size(size)
        self.KEY_SIZE = 2 * self.SIZE
        self.MAX = (1 << 8 * self.SIZE) - 1
        self.PRIME = datasets.PRIMES[8 * self.SIZE + 1][0]
        self.MULTIPLICATIVE_KEY = self._derive_new_multiplier(self.PRIME)
        self.INVERSE_KEY = pow(self.MULTIPLICATIVE_KEY, -1, self.PRIME)
