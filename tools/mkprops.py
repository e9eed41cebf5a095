"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Integer and multiprecision-integer codecs are exact inverses",
 "For every non-negative integer, the minimal big-endian encoding, the fixed-width 2-, 4- and 8-octet encodings (for values that fit) and the multiprecision-integer encoding each decode back to exactly that integer, wherever the encoding sits inside a larger buffer. The multiprecision encoding carries the exact bit count, uses the fewest octets that hold that many bits, and decoding it consumes exactly the octets it occupies. Hexadecimal text and octet strings convert into each other without loss.",
 ["inputs"], "every non-negative integer (of any size), every buffer and offset",
 "The tests sample a handful of integers; the bit count only goes wrong next to powers of two above 2^48, and offsets/trailing data are never varied.",
 ["pgp/utils.py"],
 [("minimal big-endian and MPI encoders", "pgp/utils.py: int_to_bytes, int_to_mpi"),
  ("fixed width encoders", "pgp/utils.py: int_to_2byte, int_to_4byte, int_to_8byte"),
  ("decoders", "pgp/utils.py: bytes_to_int, short_to_int, long_to_int, mpi_length, mpi_to_int"),
  ("hex conversion", "pgp/utils.py: hex_to_bytes, bytearray_to_hex, int_to_hex")])

prop("C02", "Packet length headers encode and decode every length exactly",
 "For every body length that the OpenPGP format can express, the length octets written for an old-format or a new-format header decode to that same length, with the cursor left exactly after the length octets, whether decoding from a buffer or from a stream. The new-format encoder always uses the shortest of the 1-, 2- and 5-octet forms, the old-format encoder the shortest of 1, 2 and 4 octets, and the decoders agree with the OpenPGP specification on every header octet, including all partial lengths.",
 ["inputs"], "every length 0..2^32-1, every header octet and following octets, buffer and stream decoders",
 "Tests exercise a few short packets only; boundaries (191/192, 8383/8384, 255/256, 65535/65536, 2^24, 2^32-1) and partial-length octets are not reached.",
 ["pgp/utils.py"],
 [("new format", "pgp/utils.py: new_packet_length_to_bytes, new_packet_length, new_packet_length_from_stream"),
  ("old format", "pgp/utils.py: old_packet_length_to_bytes, old_packet_length, old_packet_length_from_stream")])

prop("C03", "Packet framing is lossless and the two packet readers agree",
 "Serialising any packet and reading it back yields a packet with the same tag, header format and body (types above 15, which old headers cannot express, get new headers), with the reader stopping exactly at the packet's last octet whatever precedes or follows it, so that a concatenation of packets reads back as that sequence of packets. Bodies split by partial lengths are reassembled in order without loss, and reading from a stream gives the same packets as reading from a buffer.",
 ["inputs"], "every tag, header format, body of up to 2^32-1 octets, surrounding bytes, and every partition of a body into partial chunks",
 "Tests read a few fixed files; they cannot cover all body lengths, empty bodies, arbitrary neighbours, or all partial-length partitions.",
 ["pgp/packets/packets.py", "pgp/packets/parsers.py", "pgp/utils.py"],
 [("serialiser", "pgp/packets/packets.py: Packet.__bytes__"),
  ("buffer and stream readers", "pgp/packets/packets.py: packet_from_packet_data, packet_from_packet_stream"),
  ("sequence readers", "pgp/packets/parsers.py")])

prop("C04", "Every packet type's body survives serialise-then-parse",
 "For every packet type, the body octets written for a packet parse back to a packet whose every field equals the original's, and writing a packet parsed from canonically encoded octets (exact MPI bit counts, shortest subpacket lengths) again yields those octets. This covers session-key, signature (versions 3 and 4), one-pass signature, public and secret (sub)key, compressed, encrypted, marker, literal, trust, user ID, user attribute, integrity and comment/control packets.",
 ["inputs"], "every well-formed field assignment of every packet type",
 "Tests parse a few fixed packets and never compare all fields after a round trip; field widths, key identifiers with leading zeros, non-ASCII text and unusual lengths are not sampled.",
 ["pgp/packets/packets.py", "pgp/s2k.py"],
 [("body parsers", "pgp/packets/packets.py: *.from_packet_content"),
  ("body writers", "pgp/packets/packets.py: *.content")])

prop("C05", "Signature and user-attribute subpackets round-trip; unknown ones kept",
 "Every signature subpacket and user attribute subpacket that is parsed and written again yields the same type, critical flag and value, and the reader stops exactly at its end. Subpackets of unknown or experimental type keep their value octets, so that re-serialising a signature never alters its hashed area. An attribute made from an image has the image header OpenPGP prescribes.",
 ["inputs"], "every subpacket type octet, critical bit, and body octets well-formed for that type, at any offset",
 "Tests contain no subpacket round trip; a lost bit in a rarely used subpacket silently invalidates signatures.",
 ["pgp/packets/signature_subpackets.py", "pgp/packets/user_attribute_subpackets.py", "pgp/utils.py"],
 [("subpacket framing", "pgp/packets/signature_subpackets.py: signature_subpacket_from_data, SignatureSubpacket.__bytes__"),
  ("typed bodies", "pgp/packets/signature_subpackets.py: *.from_subpacket_content, *.content"),
  ("user attributes", "pgp/packets/user_attribute_subpackets.py")])

prop("C06", "The octets hashed for a signature are those OpenPGP prescribes",
 "For every signature type, version, target and hashed-area content, the octet string fed to the hash when making or checking a signature is exactly the one RFC 4880 section 5.2.4 prescribes: the target material with its prefixes and lengths, then the signature's own trailer. Text documents (type 0x01) are hashed with every line ending (CR, LF or CRLF) as CRLF. Subkey signatures, subkey revocations included, hash the primary key and then the subkey.",
 ["inputs"], "all signature types 0x00-0x50, versions 3 and 4, all key/user-ID/attribute/document contents and hashed areas",
 "Tests verify a few signatures made by one implementation, so most types, lengths and prefixes are never compared with the specification.",
 ["pgp/utils.py", "pgp/signature.py", "pgp/packets/packets.py", "pgp/message.py", "pgp/transferrable_keys.py"],
 [("packet-level", "pgp/utils.py: hash_packet_for_signature, hash_key, hash_user_data"),
  ("object-level", "pgp/signature.py: BaseSignature.to_signable_data; pgp/transferrable_keys.py: *.to_signable_data")])

prop("C07", "A signature verifies only if every check on it succeeds",
 "Verification reports success only when the signature names the verifying key among its issuers, the key's algorithm matches the signature's, the first two hash octets match, and the public-key operation accepts the hash of the prescribed octets; in every other case verification fails with an error and never reports success. A signature made by a key of this library verifies with the corresponding public key.",
 ["inputs"], "all combinations of issuer, algorithm, hash prefix, signature values and public-key outcome",
 "Tests verify good signatures; acceptance of bad ones in a corner (one check skipped or inverted) is not observable from positive cases.",
 ["pgp/transferrable_keys.py", "pgp/utils.py", "pgp/signature.py"],
 [("verification", "pgp/transferrable_keys.py: BasePublicKey.verify"),
  ("public-key dispatch", "pgp/utils.py: verify_hash, sign_hash")])

prop("C08", "Locked secret keys stay locked and re-lock on every exit",
 "A secret key that is locked refuses to sign and to decrypt, and unlocking with a passphrase that does not open the key or one of its subkeys fails and leaves all of them locked with no secret values loaded. Locking removes every secret value of the key and of all its subkeys, public keys made from it never hold any, and temporary unlocking always ends locked, whether its body finishes or fails at any point.",
 ["histories", "fault_sequences"], "every sequence of lock, unlock (right or wrong passphrase), sign, decrypt, and every exit of the temporary-unlock block",
 "Tests only take the success path; state after failures, and over sequences of operations, is not examined.",
 ["pgp/transferrable_keys.py", "pgp/context_managers.py", "pgp/shortcuts.py"],
 [("lock state", "pgp/transferrable_keys.py: BaseSecretKey.is_locked, lock, unlock, sign, decrypt"),
  ("temporary unlock", "pgp/context_managers.py: UnlockedSecretKey")],
 state=[("secret values", "present only while unlocked", "pgp/transferrable_keys.py: BaseSecretKey")])

prop("C09", "Secret-key protection round-trips and detects tampering",
 "Encrypting the secret values of a key and decrypting them with the same key and parameters returns exactly those values, for every protection variant (two-octet checksum or SHA-1, key versions 3 and 4). A secret key or subkey packet made of its values and a passphrase is written protected as its fields say (or in the clear when it is not to be protected), and opens with that passphrase. Decryption recomputes the checksum or hash over all secret octets and fails when it does not match, never returning values in that case.",
 ["inputs"], "all secret values, key versions, symmetric algorithms, IVs and protection variants; all decrypted contents",
 "One passphrase and one key are used in tests; integrity failures are never provoked.",
 ["pgp/packets/packets.py"],
 [("protection", "pgp/packets/packets.py: SecretKeyPacket.encrypt_key_values, decrypt_encrypted_key_portion, content, decrypt, legacy_key")])

prop("C10", "Encrypted messages round-trip and modification is always detected",
 "A message (binary or text literal, compressed or signed) encrypted with a session key decrypts with that session key to the same message, for every content and every supported cipher, with integrity protection or without. For integrity-protected messages decryption recomputes the SHA-1 over the whole decrypted prefix and packets and fails whenever the modification detection code is missing or differs, or the repeated prefix octets disagree, returning no content.",
 ["inputs"], "all message contents, session keys, ciphers, and all alterations of the ciphertext",
 "Tests round-trip one message; no tampered ciphertext is tried and content lengths around block boundaries are not varied.",
 ["pgp/message.py", "pgp/packets/packets.py", "pgp/utils.py"],
 [("encryption/decryption", "pgp/message.py: SymmetricallyEncryptedMessageData*, IntegrityProtected*")])

prop("C11", "Session keys survive public-key and passphrase wrapping",
 "Wrapping a session key for a public key or a passphrase and unwrapping it with the matching secret returns exactly the same cipher identifier and session-key octets, for every session key. Unwrapping a public-key wrapped session key verifies the padding and the two-octet checksum over the session key and fails on a mismatch, and a session key of another length than its cipher has is refused. Data without a session-key packet is opened with IDEA and the MD5 of the passphrase. Of several recipients and passphrases, each can unwrap the session key with its own secret, a recipient whose key ID is hidden included, and each ElGamal encryption uses a fresh secret number.",
 ["inputs"], "all session keys, cipher identifiers, recipients, passphrases and S2K specifiers",
 "Tests wrap one random key; checksum failure and carry across 255 are not covered.",
 ["pgp/packets/packets.py", "pgp/message.py"],
 [("public-key session keys", "pgp/packets/packets.py: PublicKeyEncryptedSessionKeyPacket._get_encrypted_key, _get_key_and_cipher_algo"),
  ("passphrase session keys", "pgp/packets/packets.py: SymmetricKeyEncryptedSessionKeyPacket")])

prop("C12", "Passphrase-to-key derivation and its specifiers follow OpenPGP",
 "For every passphrase, salt, octet count and hash, the simple, salted and iterated-salted derivations produce exactly the key octets RFC 4880 section 3.7 prescribes, of the length the cipher needs. Specifiers parse and serialise without loss, and the one-octet coded count decodes and encodes consistently for all 256 values, other counts being refused.",
 ["inputs"], "all passphrases, salts, hash algorithms, key lengths and counts",
 "Tests derive at most one key; key lengths needing more than one hash block and counts not a multiple of the input length are not covered.",
 ["pgp/s2k.py", "pgp/utils.py"],
 [("derivation", "pgp/s2k.py: *.to_key"), ("specifier codec", "pgp/s2k.py: parse_s2k_bytes, *.__bytes__"),
  ("count codec", "pgp/utils.py: s2k_count_to_int, int_to_s2k_count")])

prop("C13", "ASCII armor round-trips and its CRC-24 is OpenPGP's",
 "Armoring any octet string and reading the armor back yields the same octets and the same header information. The armor checksum is the OpenPGP CRC-24 of the data for every octet string, given as any sequence of octets, and armor whose checksum does not match its data is rejected.",
 ["inputs"], "all octet strings, chunkings, header lines, and corruptions of data or checksum",
 "Tests read one armored file; other lengths modulo three, empty data, chunked CRC input and corruption are not covered.",
 ["pgp/armor.py", "pgp/crc24.py"],
 [("armor", "pgp/armor.py: ASCIIArmor"), ("checksum", "pgp/crc24.py")])

prop("C14", "Cipher modes decrypt exactly what they encrypted",
 "For any block cipher, and in each of the ECB, CBC, CFB, OFB and CTR modes, decrypting an encrypted octet string with the same key and parameters returns the original octets, and splitting the input over several calls gives the same result as one call. The mode outputs equal the standard definitions of those modes.",
 ["inputs", "histories"], "all keys, IVs, data of every permitted length, all ways of splitting data over calls",
 "Tests use fixed vectors; chaining state across calls and segment boundaries are not exercised.",
 ["pgp/cipher/base.py", "pgp/cipher/wrapper.py"],
 [("mode engine", "pgp/cipher/base.py: _InternalObj.encrypt, decrypt, sync")],
 state=[("chaining register", "IV/segment state carried between calls", "pgp/cipher/base.py: _InternalObj")])

prop("C15", "The IDEA implementation is exact for every key and block",
 "For every 128-bit key and 64-bit block, IDEA encryption equals the published algorithm and decryption inverts it. Its multiplication is multiplication modulo 65537 with zero standing for 65536, and its inverse function is the inverse for that multiplication, on all 16-bit values.",
 ["inputs"], "all keys and blocks; all pairs of 16-bit values",
 "Test vectors cover a few keys; the zero/65536 cases of the multiplication are reached by one key in thousands.",
 ["pgp/cipher/aidea.py"],
 [("arithmetic", "pgp/cipher/aidea.py: mul, mul_inv"), ("key schedules and rounds", "pgp/cipher/aidea.py: AIDEA")])

prop("C16", "Algorithm identifiers select the right primitive; compression is lossless",
 "Every cipher, hash, public-key and compression identifier selects the primitive OpenPGP assigns to it, with the right key, block and digest sizes, and unknown identifiers are refused. Compressing any packet sequence and decompressing it returns the same packets, for every compression algorithm and level and however the data is fed.",
 ["inputs", "configurations"], "all identifiers 0..255, all packet contents, levels and chunkings",
 "Tests touch a few identifiers; a wrong table entry shows only when that algorithm is used with another implementation's data.",
 ["pgp/utils.py", "pgp/packets/packets.py"],
 [("tables and dispatch", "pgp/utils.py: hash_lengths, symmetric_cipher_*_lengths, get_hash_instance, get_public_key_constructor, get_symmetric_cipher"),
  ("compression", "pgp/utils.py: *Compression, get_compression_instance; pgp/packets/packets.py: CompressedDataPacket")])

prop("C17", "Transferable keys: grammar enforced, packets preserved",
 "A sequence of packets is accepted as a transferable public or secret key exactly when it follows the order RFC 4880 sections 11.1 and 11.2 allow: the key; revocations and direct signatures on it; user IDs and user attributes, each followed by its certifications and their revocations; then, for version 4 keys, subkeys of the same kind, each followed by one or more binding signatures and then any revocations; trust packets may follow signatures. Other sequences are refused as invalid keys. Building a key object from an accepted sequence and turning it back into packets yields the same packets in the same order, trust packets aside, with every user ID, attribute, subkey and signature attached to the component it followed.",
 ["inputs"], "all packet-type sequences and all accepted key packet sequences",
 "Tests import a few keys; missing or misplaced packets and unusual orders are not sampled.",
 ["pgp/transferrable_keys.py", "pgp/parse.py", "pgp/signature.py", "pgp/user_id.py"],
 [("grammar", "pgp/transferrable_keys.py: validate_transferrable_key"),
  ("conversion", "pgp/transferrable_keys.py: TransferablePublicKey.from_packets, to_packets")])

prop("C18", "Fingerprints and key IDs are those OpenPGP defines",
 "For every public or secret key packet, the fingerprint is the one RFC 4880 section 12.2 defines (SHA-1 over the framed public part for version 4, MD5 over the integer bodies for version 3), it depends only on the public part, and the key ID is its documented projection. A secret key and its public counterpart have the same fingerprint and key ID.",
 ["inputs"], "all key packets of all versions and algorithms",
 "Tests compare a few fingerprints; integer lengths, expiry fields and v3 keys are not covered.",
 ["pgp/utils.py", "pgp/packets/packets.py", "pgp/transferrable_keys.py"],
 [("fingerprint", "pgp/utils.py: key_packet_fingerprint; pgp/packets/packets.py: PublicKeyPacket.fingerprint, key_id")])

prop("C19", "Keyring edits touch exactly the named key",
 "Adding, updating or deleting a key in a keyring file or GDBM key database changes exactly that key: every other key's packets stay byte-for-byte the same and in order, and lookups afterwards return precisely the keys present. Adding a key that is present, or updating or deleting an absent one, is refused and leaves the file unchanged, as is every edit of a read-only one; a database of several keyrings keeps secret keys in secret keyrings and others in public ones.",
 ["histories"], "all keyring contents and all sequences of add, update, delete and lookup",
 "No test touches the keyring; damage to neighbouring keys shows only with several keys and particular positions.",
 ["pgp/db/gpg.py"],
 [("file database", "pgp/db/gpg.py: Keyring/GPG database classes add_transferrable_key, update_transferrable_key, delete_transferrable_key, get/search")])

prop("C20", "Signature attributes read back what was set, and expiry is exact",
 "Every attribute of a signature (times, issuer, preferences, flags, notations, revocation data) that is set reads back as the value set, is stored in exactly one subpacket of the documented type (one for each value of an attribute with several values), and leaves the other subpackets unchanged; the creation time cannot be set beyond the expiry time. A signature or key is reported expired exactly from its creation time plus its validity period on, and never when no period is set.",
 ["inputs", "histories"], "all attributes, values, and instants",
 "Tests never set most attributes; two attributes sharing a slot or a boundary second are invisible to them.",
 ["pgp/signature.py", "pgp/transferrable_keys.py"],
 [("attribute accessors", "pgp/signature.py: BaseSignature"), ("expiry", "pgp/signature.py, pgp/transferrable_keys.py")])

prop("C21", "Messages are written as OpenPGP messages and read back as composed",
 "A literal, compressed, signed or encrypted message is written as the packet sequence the OpenPGP message grammar prescribes, and reading those packets gives back the message as it was composed. Literal messages keep format, file name, time and content. The one-pass packets of a signed message name its signatures in reverse order of the signature packets that follow it, carry their type, hash, key algorithm and key ID, and only the last of them is marked as the last; without one-pass packets the signatures precede the message. Encrypted messages carry their session keys in order before the encrypted data, which is integrity protected exactly when asked. Only literal messages are signed.",
 ["inputs", "configurations"], "all literal contents and metadata, all signature fields, one-pass or not, every compression and session-key kind, both header formats",
 "Tests sign with one key and inspect a few messages; order and flags of several one-pass packets are never observed.",
 ["pgp/message.py"],
 [("message grammar", "pgp/message.py: open_pgp_message_from_packets, SignedMessageWrapper.from_packets"),
  ("writers", "pgp/message.py: to_packets of every message class")])

prop("C22", "What a key says of itself comes from its latest self-signature",
 "The attributes a key, subkey, user ID or user attribute reports (preferences, key flags, policies and the like) are those of the most recently created of its signatures that were issued by the primary key or one of its subkeys and have a self-signature type for that kind of component, wherever it stands among the signatures; without one the attribute has its default. Signatures by other keys, revocations and other types never contribute. The component is revoked exactly when it has such a signature of its revocation type which has not expired. Setting an attribute changes that one signature alone. Creation times are taken to be distinct.",
 ["inputs", "histories"], "all issuers, types, creation times, orders and attribute values of the signatures of a component",
 "Tests have keys with one self-signature per component; which of several wins depends on order, issuer, type and time together.",
 ["pgp/transferrable_keys.py"],
 [("selection", "pgp/transferrable_keys.py: SignedMixin.get_most_recent_selfsig, KeySignature.is_self_signature"),
  ("attributes", "pgp/transferrable_keys.py: SignedMixin")])

prop("C23", "Keys written as octets, armor or files are read back unchanged",
 "Serialising a key that was read gives back the octets it was read from (in the header format they were in, without trust packets), for public and secret keys with any signatures, user IDs and subkeys. Armored, it is a block labelled for its kind - a private key block for a secret key, a public key block for a public one - and reading the block, or a file written in either form, gives a key of the same kind that serialises to the same octets. Armored input is recognised whether or not it is announced.",
 ["inputs", "configurations"], "all contents of the packets of a key, both header formats, octets, armor and files",
 "Tests serialise two sample keys; labels and lengths are not examined.",
 ["pgp/shortcuts.py", "pgp/armor.py", "pgp/transferrable_keys.py"],
 [("public functions", "pgp/shortcuts.py: serialize_key, read_key, read_key_file, write_key_file")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
