MODULE = "aiootp"

__PUBLIC_ED25519_KEY__ = '70d1740f2a439da98243c43a4d7ef1cf993b87a75f3bb0851ae79de675af5b3b'
__PUBLIC_X25519_KEY__ = '4457276dbcae91cc5b69f1aed4384b9eb6f933343bb44d9ed8a80e2ce438a450'
