"""Write MANIFEST.json from the table below."""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('contract-based deductive verification: postconditions and loop '
        'invariants on the real functions of /repo, verification conditions '
        'generated from their current source by symbolic execution '
        '(engine/) and discharged by z3/cvc5')
LEVELS = {
    'C01': ('proof', 'All encodings proved for every integer and buffer.'),
    'C02': ('proof', 'Every length, header octet and decoder path proved.'),
    'C03': ('proof', 'Framing proved for every body, prefix and suffix in every length encoding and for packet pairs; reassembly for up to three partial chunks of every size, longer sequences bounded.'),
    'C04': ('proof', 'Every packet type proved for all field values; up to two signature subpackets per area, two signature values, and the S2K, cipher and key algorithm kinds enumerated. Non-ASCII text bounded.'),
    'C05': ('proof', 'Every subpacket type proved for all values at every offset; notation names of arbitrary octets bounded.'),
}
LEVELS.update({
    'C19': ('other', 'Partly proved, partly bounded. Each edit, each refused edit and lookups by fingerprint of keyring files of up to 3 version 4 RSA keys are proved for every content of their packets, over a model of files; random histories of edits of real files of up to 4 keys of every kind, GDBM databases and databases of two keyrings are bounded.'),
    'C17': ('other', 'Partly proved, partly bounded. What an accepted sequence becomes, and its conversion back, proved for every content of the packets (subpackets of one unknown type, numbers other than zero) in 20 shapes of sequences; the grammar is decided for every sequence of up to 6 packets (exhaustive, bounded) and random longer ones.'),
    'C07': ('proof', 'Acceptance decided exactly, for every issuer list, algorithm, prefix, signature value and document, with RSA, DSA and ElGamal keys, the public-key operations being unspecified functions; signatures made here verify after being written and read, for documents and user IDs of every content; other hashes, targets, types and verifying subkeys bounded.'),
    'C08': ('proof', 'Unlocking, refusals, locking, temporary unlocking and subkeys proved for every stored content, secret value, IV and key; every operation leads from each of the two states to a state equal to one of them, so histories follow by induction; random histories bounded. Derived keys from fixed passphrases, 256-bit AES as an unspecified permutation.'),
    'C06': ('proof', 'The octets hashed when signing, verifying and hashing packets, for all contents of every kind of target with an RSA signer; other signers, text encodings and inner subpacket layouts beyond those of the harnesses bounded. Digests and RSA are unspecified functions.'),
    'C09': ('proof', 'Protection and acceptance proved for every value, key, IV and decrypted content with the Triple DES and AES ciphers as unspecified permutations, version 4 keys of any number of values for acceptance and up to four for round trips, version 3 up to two; other ciphers and random tampering bounded.'),
    'C10': ('proof', 'Writing, reading and refusal of modified data proved for every content, session key and decrypted octets with the Triple DES and 256-bit AES ciphers as unspecified permutations, and messages end to end for RSA recipients and passphrases; other ciphers, text and compressed messages, random tampering bounded.'),
    'C11': ('proof', 'Wrapping and unwrapping proved for every session key, key ID, checksum and decrypted content with RSA, ElGamal, PKCS#1 padding, ciphers and hashes as specified functions; three recipients of each kind; tampering with real keys bounded.'),
    'C12': ('proof', 'Derivation proved for every passphrase, salt, count and cipher; specifier codecs for all field values; the 256 coded counts enumerated.'),
    'C13': ('other', 'Partly proved, partly bounded. The CRC proved equal to CRC-24 for every sequence of octets (loop invariant); armor text round trips and refusals are bounded.'),
    'C14': ('proof', 'Every call in every state earlier calls can leave, for data of every length, block sizes 8 and 16 and every segment size, over an unspecified block cipher and counter: results and the state left are those of the definitions (loop invariants over ghost streams). The PyCrypto ciphers, wrapped or not, in pieces are bounded.'),
    'C15': ('proof', 'Multiplication proved for all pairs of words and inversion decided on every word; key schedule, encryption against the published algorithm and both inversions proved for every key and block over those two contracts. Assumed: no product of words is a multiple of the prime 65537; multiplying by a word and by its inverse cancel.'),
    'C16': ('proof', 'Selection and sizes proved for every identifier; compression proved over an abstract model of zlib and bz2 for every packet body and feeding; real streams bounded.'),
    'C18': ('proof', 'Every key packet type, key object and secret counterpart for all field values.'),
    'C20': ('proof', 'Every single-valued attribute and expiry decision for all values; attributes with several values and histories of assignments bounded.'),
    'C21': ('proof', 'Literals, compressed and encrypted messages and messages signed by up to three keys proved for all contents; more signatures and nested layers with real cryptography bounded.'),
    'C22': ('proof', 'Two signatures of every kind on every kind of component proved for all issuers, types, times, orders and values of two representative attributes; more signatures and attributes bounded.'),
    'C23': ('other', 'Partly proved, partly bounded. Binary serialisation proved for all contents of seven shapes of public and secret keys; longer keys, armor and files bounded.'),
})
NA = 'in progress'
props = [json.loads(l) for l in open(os.path.join(VERIF,
                                                  'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in LEVELS:
        lv, note = LEVELS[i]
        checks.append({
            'property': i, 'quick_cmd': 'python3 checks/run.py %s' % i,
            'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % i,
            'technique': TECH, 'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA})
m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks,
     'not_applicable': na}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
