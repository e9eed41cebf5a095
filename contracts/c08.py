"""Secret keys are usable only between unlock and lock."""
from vc import bounded, harness, spec
from contracts import keys as K
from contracts.c04 import BLOCKS, number
from contracts.c09 import KEYS, cfb, check_octets, mpis
from pgp import context_managers
from pgp import message as M
from pgp import s2k
from pgp import transferrable_keys as T

SECRET = {'rsa': ['exponent_d', 'prime_p', 'prime_q',
                  'multiplicative_inverse_u'],
          'dsa': ['exponent_x'], 'elg': ['exponent_x']}
SECRET['rsa2'] = SECRET['rsa']
NONE = dict((k, [None] * len(SECRET[k])) for k in SECRET)


def held(key, which):
    return [getattr(key, a) for a in SECRET[which]]


def protection(v, word):
    """cipher, key made from the passphrase, and specifier octets"""
    alg = 9 if v.symbolic else v.choice('cipher', sorted(KEYS))
    h = 8 if v.symbolic else v.choice('hash', [1, 2, 8, 10])
    made = s2k.SimpleS2K(h, alg)
    return alg, made.to_key(word.encode('utf8')), b'\x00' + spec.be(h, 1)


def stored(v, which, word, vals, usage, right=True, name=''):
    """octets of a protected key: the secret values and their check"""
    alg, key, sp = protection(v, word)
    iv = v.bytes('iv' + name, BLOCKS[alg])
    plain = mpis(vals)
    kind = 'sha1' if usage == 254 else 'checksum'
    good = check_octets(kind, plain)
    if right is not True:
        good = right
    return K.protected_body(which, cfb(alg, key, iv, plain + good), alg,
                            usage, sp, iv)


def words(v):
    return u'\xe9t\xe9' if v.symbolic else v.text('word', hi=20)


def secrets(v, which, name=''):
    return [number(v, 'secret%s%d' % (name, i))
            for i in range(len(SECRET[which]))]


def unlocking(v, which, usage):
    word = words(v)
    vals = secrets(v, which)
    n = 20 if usage == 254 else 2
    kind = 'sha1' if usage == 254 else 'checksum'
    right = check_octets(kind, mpis(vals))
    check = right
    if v.symbolic or v.choice('wrong', [False, True]):
        check = v.bytes('check', n)
    key = K.locked(stored(v, which, word, vals, usage, check))
    v.check('locked at first', key.is_locked())
    v.check_eq('nothing held', held(key, which), NONE[which])
    out = v.outcome(key.unlock, word)
    if check == right:
        v.check_eq('unlocked', (out, key.is_locked()), (('ok', None), False))
        v.check_eq('values', held(key, which), vals)
        key.lock()
        v.check('locked', key.is_locked())
    else:
        v.check_eq('refused', (out, key.is_locked()),
                   (('exc', 'ValueError'), True))
    v.check_eq('nothing left', held(key, which), NONE[which])


@harness()
def unlocking_rsa(v):
    """every stored content of four values: unlocked exactly when its check
    matches"""
    unlocking(v, 'rsa', v.choice('usage', [254, 255]))


@harness()
def unlocking_others(v):
    unlocking(v, v.choice('key', ['dsa', 'elg']),
              v.choice('usage', [254, 255]))


@harness()
def other_values(v):
    """with a check that matches, but not the values of such a key: nothing
    is kept of them"""
    which = v.choice('key', ['rsa', 'dsa', 'elg'])
    n = v.choice('values', [0, 1, 2, 3, 4, 5])
    v.assume(n != len(SECRET[which]))
    v.assume(not v.symbolic or n < 4)
    word = words(v)
    vals = [number(v, 'value%d' % i) for i in range(n)]
    key = K.locked(stored(v, which, word, vals, v.choice('usage',
                                                         [254, 255])))
    out = v.outcome(key.unlock, word)
    v.check_eq('refused', (out[0], key.is_locked()), ('exc', True))
    v.check_eq('nothing held', held(key, which), NONE[which])


@harness()
def refusals(v):
    """a locked key neither signs nor decrypts, whatever it is given"""
    which = v.choice('key', ['rsa', 'dsa', 'elg'])
    word = words(v)
    key = K.locked(stored(v, which, word, secrets(v, which), 254))
    if v.choice('unlocked before', [False, True]):
        key.unlock(word)
        key.lock()
    v.check('locked', key.is_locked())
    data = v.bytes('data')
    v.check_eq('signing', v.outcome(
        key.sign, data, v.int('version', 0, 255), v.int('type', 0, 255),
        v.int('hash', 0, 255)),
        ('exc', 'RuntimeError'))
    v.check_eq('decrypting', v.outcome(key.decrypt, data),
               ('exc', 'RuntimeError'))
    alg = {'rsa': 1, 'dsa': 17, 'elg': 20}[which]
    obj = M.PublicKeySessionKey(3, public_key_algorithm=alg,
                                encrypted_key=bytearray(data))
    v.check_eq('session keys', v.outcome(
        obj.get_algorithm_and_session_key, key), ('exc', 'RuntimeError'))
    v.check_eq('still locked, nothing held',
               (key.is_locked(), held(key, which)), (True, NONE[which]))


@harness()
def public_part(v):
    """the public key made from an unlocked one holds nothing secret"""
    which = v.choice('key', ['rsa', 'dsa', 'elg'])
    word = words(v)
    key = K.locked(stored(v, which, word, secrets(v, which), 254))
    key.unlock(word)
    public = key.to_public_key()
    for a in SECRET[which]:
        v.check('no ' + a, getattr(public, a, None) is None)


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


@harness()
def temporary(v):
    """however the block ends, the key is locked after it"""
    which = v.choice('key', ['dsa', 'elg'])
    word = words(v)
    vals = secrets(v, which)
    key = K.locked(stored(v, which, word, vals, 254))
    if v.choice('already unlocked', [False, True]):
        key.unlock(word)
    how = v.choice('how', ['ends', 'returns', 'raises', 'stops', 'locks']
                   + ([] if v.symbolic else ['fails to unlock']))
    ran = []

    def use():
        with context_managers.unlocked(key, word) as k:
            ran.append(k)
            v.check_eq('unlocked', (k is key, key.is_locked(),
                                    held(key, which)), (True, False, vals))
            if how == 'returns':
                return 1
            if how == 'raises':
                raise Boom()
            if how == 'stops':
                raise Stop()
            if how == 'locks':
                key.lock()
            if how == 'fails to unlock':
                key.unlock(word + u'?')
        return 2

    got = 0
    try:
        got = use()
    except Boom:
        v.check_eq('its exception', how, 'raises')
        got = 3
    except Stop:
        v.check_eq('its exception', how, 'stops')
        got = 4
    except ValueError:
        v.check_eq('its exception', how, 'fails to unlock')
        got = 5
    v.check_eq('outcome', (len(ran), got), (1, {
        'ends': 2, 'returns': 1, 'raises': 3, 'stops': 4, 'locks': 2,
        'fails to unlock': 5}[how]))
    v.check_eq('locked', (key.is_locked(), held(key, which)),
               (True, NONE[which]))


@harness()
def subkeys(v):
    """a key is unlocked with all its subkeys or not at all, and locked with
    all of them"""
    word = u'word'
    members = [('dsa', 17), ('elg', 16), ('dsa', 17)]
    vals, wrong, keys = [], [], []
    for i in range(3):
        which = members[i][0]
        vals.append(secrets(v, which, 'k%d' % i))
        if v.choice('wrong%d' % i, [False, True]):
            check = v.bytes('check%d' % i, 20)
            v.assume(check != check_octets('sha1', mpis(vals[i])))
            wrong.append(i)
        else:
            check = True
        body = stored(v, which, word, vals[i], 254, check, 'k%d' % i)
        keys.append(K.locked_subkey(keys[0], body) if i else K.locked(body))
    how = v.choice('how', ['unlock', 'with', 'only a subkey'])
    v.assume(how != 'only a subkey' or 1 not in wrong)
    if how == 'only a subkey':
        keys[1].unlock(word)
        v.check_eq('that one', [k.is_locked() for k in keys],
                   [True, False, True])
        keys[0].lock()
    elif how == 'unlock':
        out = v.outcome(keys[0].unlock, word)
        if not wrong:
            v.check_eq('unlocked', out, ('ok', None))
            v.check_eq('all of them', [k.is_locked() for k in keys],
                       [False, False, False])
            v.check_eq('values', [k.exponent_x for k in keys],
                       [x[0] for x in vals])
            keys[0].lock()
        else:
            v.check_eq('refused', out, ('exc', 'ValueError'))
    else:
        seen = []
        try:
            with context_managers.unlocked(keys[0], word):
                seen.append([k.is_locked() for k in keys])
        except ValueError:
            pass
        v.check_eq('within', seen, [] if wrong else [[False, False, False]])
    v.check_eq('all locked', [k.is_locked() for k in keys],
               [True, True, True])
    v.check_eq('nothing held', [k.exponent_x for k in keys],
               [None, None, None])


def reachable(x, depth=3):
    """numbers held by an object's attributes"""
    out = []
    if isinstance(x, bool):
        return out
    if isinstance(x, int):
        return [x]
    if depth:
        if isinstance(x, (list, tuple)):
            for y in x:
                out += reachable(y, depth - 1)
        elif isinstance(x, dict):
            out += reachable(list(x.values()), depth - 1)
        elif hasattr(x, '__dict__') and not isinstance(x, type):
            out += reachable(list(vars(x).values()), depth - 1)
    return out


def state(v, keys, whichs, want):
    for k, which, unlocked in zip(keys, whichs, want):
        v.check_eq('locked', k.is_locked(), not unlocked)
        if unlocked:
            v.check_eq('values', held(k, which), K.secret_values(which))
        else:
            v.check_eq('no values', held(k, which), NONE[which])
            has = reachable(list(vars(k).items()), 2)
            v.check('nor anywhere else', not any(
                x in has for x in K.secret_values(which)))


@bounded(secs=8)
def histories(v):
    """up to 12 operations on a key with up to two subkeys, RSA, DSA or
    ElGamal, each with its own passphrase, against a model of their states"""
    n = v.choice('subkeys', [0, 1, 2])
    words, whichs, keys = [], [], []
    for i in range(n + 1):
        word = u'one' if i == 0 else v.choice('word%d' % i, [u'one', u'two'])
        which = v.choice('key%d' % i, ['rsa', 'rsa2', 'dsa', 'elg'])
        body = stored(v, which, word, K.secret_values(which), 254,
                      name=str(i))
        keys.append(K.locked_subkey(keys[0], body) if i else K.locked(body))
        words.append(word)
        whichs.append(which)
    model = [False] * (n + 1)
    state(v, keys, whichs, model)
    for step in range(v.choice('steps', range(1, 13))):
        s = str(step)
        i = v.choice('which' + s, n + 1)
        op = v.choice('op' + s, ['lock', 'unlock', 'sign', 'session', 'with',
                                 'public'])
        members = range(n + 1) if i == 0 else [i]
        if op == 'lock':
            keys[i].lock()
            for j in members:
                model[j] = False
        elif op == 'unlock':
            word = v.choice('given' + s, [u'one', u'two', u'three', u''])
            out = v.outcome(keys[i].unlock, word)
            if all(words[j] == word for j in members):
                v.check_eq('unlocking', out, ('ok', None))
                for j in members:
                    model[j] = True
            else:
                v.check_eq('refused', out, ('exc', 'ValueError'))
                for j in members:
                    # a key refusing another passphrase may be locked by it
                    v.check('not unlocked by it',
                            keys[j].is_locked() or model[j])
                    model[j] = not keys[j].is_locked()
                    if any(words[m] == word for m in members):
                        v.check('not in part', not model[j])
        elif op == 'sign':
            out = v.outcome(keys[i].sign, b'data', 4, 0, 8)
            if model[i]:
                v.check_eq('signs', out[0], 'ok')
                v.check('verifies', keys[i].verify(out[1], b'data'))
            else:
                v.check_eq('does not sign', out, ('exc', 'RuntimeError'))
        elif op == 'session':
            if whichs[i] in ('rsa', 'rsa2'):
                obj = M.PublicKeySessionKey(
                    3, public_key=K.public(whichs[i]), symmetric_algorithm=9,
                    session_key=bytes(32))
                out = v.outcome(obj.get_algorithm_and_session_key, keys[i])
                v.check_eq('session key', out, ('ok', (9, bytes(32)))
                           if model[i] else ('exc', 'RuntimeError'))
            if not model[i]:
                v.check_eq('decrypting', v.outcome(keys[i].decrypt, b''),
                           ('exc', 'RuntimeError'))
        elif op == 'public':
            public = keys[i].to_public_key()
            has = reachable(list(vars(public).items()), 2)
            v.check('public keys have nothing secret', not any(
                x in has for x in K.secret_values(whichs[i])))
        else:
            word = v.choice('given' + s, [u'one', u'two'])
            fail = v.choice('fails' + s, [False, True])
            inside = []
            try:
                with context_managers.unlocked(keys[i], word):
                    inside.append([keys[j].is_locked() for j in members])
                    if fail:
                        raise Boom()
            except Boom:
                v.check('its exception', fail)
            except ValueError:
                pass
            right = all(words[j] == word for j in members)
            v.check_eq('within', inside,
                       [[False for j in members]] if right else [])
            for j in members:
                if right:
                    model[j] = False
                else:
                    v.check('not unlocked by it',
                            keys[j].is_locked() or model[j])
                    model[j] = not keys[j].is_locked()
        state(v, keys, whichs, model)
