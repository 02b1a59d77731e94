TRUSTED = ['assumed contracts on OpenSSL BN_/EC_/SHA256/RAND functions, libc/libstdc++ containers and streams, x86 AES/SSE intrinsics (engine/externals.py)']
ASSUMPTIONS = [
 'machine integers of 32/64 bits are treated as mathematical integers (no wrap-around); conversions to 8/16-bit types are exact modulo 2^n',
 'OpenSSL, libc, libstdc++ and intrinsics behave as stated by the assumed contracts in engine/externals.py',
 'group elements are identified with their discrete logarithm modulo the prime group order; equality is decided modulo that order',
 'SHA-256 and AES are uninterpreted functions of their input bytes; byte encodings of distinct values of one fixed-length type are distinct',
 'random sources return arbitrary values of the requested range, each draw a new unknown; scalar denominators are non-zero modulo the order',
 'printing functions have no effect on values; object destruction has no observable effect; allocation succeeds',
 'group parameters are those set by ECGroup initialisation (prime order, BN_BYTE_LEN=32, POINT_BYTE_LEN=65, POINT_COMPRESSED_BYTE_LEN=33)',
]
