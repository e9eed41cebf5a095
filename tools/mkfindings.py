"""Write known_findings.json: every repaired defect from /repo's "fix:"
commits, and the findings that are not repaired (KNOWN)."""
import json
import os
import subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit subject (without "fix: ") -> property
PROP = {
    'write one-pass signature packets in the reverse order of the signatures, marking the last': 'C21',
    'armor secret keys as private key blocks': 'C23',
    'use exact bit counts for integers instead of floating-point logarithms': 'C01',
    'write four-octet old-format lengths for bodies of 16 MiB and more': 'C02',
    'write the length octet of empty new-format packets and split long bodies correctly': 'C03',
    'read partial and indeterminate length packets from streams as from buffers': 'C03',
    'read and write the whole key ID of version 3 signatures': 'C04',
    'compare signature packets of every version': 'C04',
    'read the whole key ID of one-pass signature packets': 'C04',
    'recognise the wildcard key ID of encrypted session keys': 'C04',
    'raise the documented exception for unknown public key algorithms': 'C04',
    'keep the whole session key of symmetric-key encrypted session key packets': 'C04',
    'write literal data packets as they were read': 'C04',
    'let marker packets be created and parsed': 'C04',
    'keep the octets of trust packets which are not interpreted': 'C04',
    'read unprotected and legacy protected secret keys': 'C04',
    'encrypt and decrypt secret key material alike, for every protection': 'C09',
    'derive the key of legacy protected secret keys from the passphrase': 'C09',
    "parse and write GnuPG's string-to-key specifiers": 'C12',
    'hash the hashed subpackets of a target signature': 'C06',
    'keep the value of signature subpackets of unknown type': 'C05',
    'write the terminating null of regular expression subpackets': 'C05',
    'read whole fingerprints in additional recipient subpackets': 'C05',
    'parse and write revocation key subpackets': 'C05',
    'keep notations as they were read': 'C05',
    'keep flags which are not understood': 'C05',
    'keep text in signature subpackets which is not valid UTF-8': 'C05',
    'parse and write signature target subpackets': 'C05',
    'keep the value of user attribute subpackets of unknown type': 'C05',
    'keep user IDs which are not valid UTF-8': 'C04',
    'write secret keys which have no secret material': 'C04',
    'write additional armor headers': 'C13',
    'keep additional armor headers when reading armor': 'C13',
    'hash the whole salt and passphrase at least once': 'C12',
    'derive 256-bit keys for Twofish': 'C12',
    'compress every piece of data fed to zlib': 'C16',
    'decompress BZip2 data': 'C16',
    'refuse unknown compression algorithms': 'C16',
    'compress with the default level when none is given': 'C16',
    'pass only the cipher parameters that are given': 'C16',
    'accept empty pieces after the end of BZip2 data': 'C16',
    'compute fingerprints of version 3 keys': 'C18',
    'take version 3 key IDs from the modulus': 'C18',
    'keep the validity period of version 3 keys': 'C18',
    'store the creation time and issuer given to version 4 signatures': 'C20',
    'set creation and expiration times of signatures': 'C20',
    'report signatures expired when their validity period has passed': 'C20',
    'take the expiration time of a key from its own creation time': 'C20',
    'remove the values left out of signature attributes': 'C20',
    'read and write trust, revocation and revocability attributes': 'C20',
    'leave other flags off when one signature flag is set': 'C20',
    'let signatures have no target': 'C20',
    'find the most recent self-signature': 'C20',
    'read self-signature attributes of version 3 keys as their defaults': 'C20',
    'read each self-signature attribute from its own signature attribute': 'C20',
    'set the expiration time of version 4 keys': 'C20',
    'keep the creation time and issuer of version 3 signatures': 'C20',
    'leave the subpackets given to sign alone': 'C20',
    'count keys as expired from their expiration time on': 'C20',
    'hash the primary key once for signatures of secret subkeys': 'C06',
    'keep the character before a line feed in canonical text': 'C06',
    'keep the encoding of text messages': 'C06',
    'hash all documents signed as text with canonical line endings': 'C06',
    'hash the body of a signature that is signed': 'C06',
    'hash only the public part of key packets': 'C06',
    'hash only the data of literal data packets': 'C06',
    'sign and verify the body of signatures': 'C06',
    'sign and verify documents given as octets or text': 'C06',
    'verify RSA signatures whose value has leading zeros': 'C07',
    'keep the secret number of ElGamal signatures secret': 'C08',
    'refuse protected secret keys shorter than their checksum': 'C09',
    'keep user attributes of every type as they were read': 'C17',
    'write packets of types above 15 with new headers': 'C03',
    'create key databases which do not exist yet': 'C19',
    'leave the keys after an updated or deleted key in the keyring': 'C19',
    'tell the keys of a keyring apart by their fingerprints': 'C19',
    'open keyrings named by resource prefixes, and empty ones': 'C19',
    'store secret keys in secret keyrings': 'C19',
    'remove the lock files of key databases': 'C19',
    'recognise GDBM databases of every format': 'C19',
    'read and change the keys of GDBM databases': 'C19',
    'iterate over the keys of key databases': 'C19',
    'find no key of a GDBM database by an empty key ID': 'C19',
    'write messages which have no session key packet': 'C21',
    'write and read unprotected secret keys without a passphrase': 'C09',
    'refuse key packet sequences which end early as invalid keys': 'C17',
    'accept subkey revocations after binding signatures': 'C17',
    'accept signatures on a key after trust packets': 'C17',
    'read the rest of a key after trust packets': 'C17',
    'a standalone signature covers no document': 'C06',
    'leave keys locked when they cannot be unlocked': 'C08',
    'lock keys of every algorithm': 'C08',
    'keep the secret primes out of public keys': 'C08',
    'decrypt RSA session keys whose value has leading zeros': 'C11',
    'use a random secret number for ElGamal encryption': 'C11',
    'refuse decrypted session keys too short for a checksum': 'C11',
    'build key objects for RSA encrypt-only keys': 'C11',
    'encrypt for hidden recipients': 'C11',
    'name the algorithm which encrypts a session key in its packet': 'C11',
    'keep the header format of passphrase session keys': 'C11',
    'read symmetrically encrypted data without integrity protection': 'C10',
    'encrypt and decrypt data without integrity protection': 'C10',
    'take nothing but integrity protected data to end in an MDC': 'C10',
    'write and read messages signed without one-pass signatures': 'C10',
    'try each session key which is for the given secret': 'C11',
    'refuse session keys of another length than their algorithm has': 'C11',
}
# findings which are recorded rather than repaired: demo is a harness of
# contracts/findings.py that fails while the defect is there
KNOWN = [
    ('C17', 'user_id_after_attribute', 'user IDs that follow a user attribute (key, attribute, certification, user ID) are refused although RFC 4880 11.1 lets them be intermixed'),
]
out = list(dict(property=p, status='known', demo=d, what=w)
           for p, d, w in KNOWN)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s', '6536f96..HEAD'],
                     capture_output=True, text=True, check=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = PROP.get(s)
    if p is None:
        print('no property for', h, s)
        continue
    out.append({'property': p, 'status': 'fixed', 'commit': h, 'what': s,
                'line': 'fixed: property=%s %s %s' % (p, h, s)})
with open(os.path.join(VERIF, 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
