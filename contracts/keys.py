"""Fixed keys for the harnesses, and independent encoders of their packets."""
from vc import spec
from pgp import transferrable_keys as T
from pgp.packets import constants
from pgp.packets import packets as P

NEW = constants.NEW_PACKET_HEADER_TYPE
OLD = constants.OLD_PACKET_HEADER_TYPE

RSA_KEY = {
    'n': int(
        '126188746294418361519169273977147363149382906387832832237332468387'
        '011886935176945121433851079660950509388198393573872780169194408810'
        '037853887628989307606314373390750458762423674951354118991444884381'
        '750292505968651543027801611050421949928102554141858760140279787832'
        '490334538219934266186400779443608572836499623'
    ),
    'e': int(
        '65537'
    ),
    'd': int(
        '149145983001444165635821779487462574569345559436677467462712254165'
        '707016830169311520305569443681236957096141836920093772249352257601'
        '439372600755931943286744232625727961607523425556161030411189236928'
        '730295894890848319604098782326365825310809492502147919548303151660'
        '52666670569222290724335436104842152645792257'
    ),
    'p': int(
        '988200993051022136186524253532295858062787843606870527555626577910'
        '775887453893098348571253769156584139100539669718254050276145404109'
        '6765942280175507237249'
    ),
    'q': int(
        '127695425507332057627812983601664168287669526016314683478651414122'
        '128052184464440234378884656018934541025230712703511212525302524756'
        '97574564710767849881127'
    ),
    'u': int(
        '731859868839432537162152994065077033489222481856170390923075295505'
        '978540054799572381165904605393302337904571118983503829374749717175'
        '0634756518176652490349'
    ),
}
RSA_KEY2 = {
    'n': int(
        '122073119114392571302162298960871602760047363759768189014665259039'
        '392894386009201058503222413282054204392868196036367848709344698856'
        '305313492116852995143956573934414545296485660878638735812773559392'
        '754548127798172468437138786824677394943257460544833355990938292611'
        '732411188246794336176531030878615713645138533'
    ),
    'e': int(
        '65537'
    ),
    'd': int(
        '121156690614395910712256385490789834773140070124572712428992809774'
        '895262452324160136264127162853521151788060359967431324584575521264'
        '451822880124825717825613119230836370434881330750654614802702523980'
        '712700594809068270813465338579717104184305210631898947462437320518'
        '497949627736647036543937332214931925723166973'
    ),
    'p': int(
        '976177453585553074069644511423108286234067100992565981138610651272'
        '384647776538378767644188087603096871878737708621561525044539891590'
        '7414214681097803457551'
    ),
    'q': int(
        '125052180488302962881610911361352883751234934570022222799386831742'
        '869075311856700543924478409461586013454230635215876130766527756189'
        '90578899771442406071883'
    ),
    'u': int(
        '258814014872155684604302136207434750093140048341156565394916583657'
        '947386652521390665685471261361436235370800343908708105271033739719'
        '3542493961836441050294'
    ),
}
DSA_KEY = {
    'p': int(
        '898846567431158682165932564170203298500908850391125747671420878669'
        '543799013610295454611397720925332584829963217112607942359386010673'
        '544161442701214018335326239810948681778592498350387603683002795862'
        '519033297389314129189717327601244699389001678428762692271559529783'
        '34549408726828275571053654099406706116598253'
    ),
    'q': int(
        '1242796771550877872165717995899627397396308161467'
    ),
    'g': int(
        '406883324113330536123704182771578317292648724946775892628543927141'
        '838261665169666602064402139960845973528924610528869395316760940647'
        '160433256660778974413270000324228043007752991421869267487879178263'
        '082262474359594660213168382069487975698051745922617941712281909467'
        '6542376579044588767826973251288540176913111'
    ),
    'y': int(
        '669448959661996825815449087554727875328408807330892090245097444884'
        '363703604062266805188989600016291860358718117307512398353582633362'
        '351678304988804366659951384006296634057737981820865922136580052866'
        '785990345442331556222519304720792918184316954078959688786503858542'
        '07971319684692614472556684875186669597774776'
    ),
    'x': int(
        '814814413788298645962269179676564914576251707478'
    ),
}
ELG_KEY = {
    'p': int(
        '813369625353412919207268853411554850905354012023460726732278077961'
        '452889185490408331137045227314901698133683891874337277059227347345'
        '5114330760345763903019'
    ),
    'g': int(
        '471023450678817384095492634465532019994561683437048346058348636433'
        '103633864305502178849504162700279624872626497915111209981999289728'
        '1667670541269540734698'
    ),
    'y': int(
        '366890632624822326197479298205186662939170587779228915444373811824'
        '378283562353803493161409767954680516563727262343105919759696159167'
        '5177635093858130554925'
    ),
    'x': int(
        '562852815791365872352094264771430115389823488447551448384921186702'
        '666633075685066065347976893848706169881528743503527766597609630218'
        '7940600829482053313192'
    ),
}
NUMBERS = {'rsa': RSA_KEY, 'rsa2': RSA_KEY2, 'dsa': DSA_KEY, 'elg': ELG_KEY}
ALGORITHM = {'rsa': 1, 'rsa2': 1, 'dsa': 17, 'elg': 20}


def mpi(i):
    n = spec.bitlen(i)
    return spec.be(n, 2) + spec.be(i, spec.cdiv(n, 8))


def mpis(vals):
    r = b''
    for x in vals:
        r = r + mpi(x)
    return r


def public_body(which, version=4, created=1000000000, algorithm=None):
    """RFC 4880 5.5.2"""
    k = NUMBERS[which]
    alg = ALGORITHM[which] if algorithm is None else algorithm
    if alg in (1, 2, 3):
        vals = mpi(k['n']) + mpi(k['e'])
    elif alg == 17:
        vals = mpi(k['p']) + mpi(k['q']) + mpi(k['g']) + mpi(k['y'])
    else:
        vals = mpi(k['p']) + mpi(k['g']) + mpi(k['y'])
    body = spec.be(version, 1) + spec.be(created, 4)
    if version < 4:
        body = body + b'\x00\x00'
    return body + spec.be(alg, 1) + vals


def secret_values(which):
    k = NUMBERS[which]
    if which in ('rsa', 'rsa2'):
        return [k['d'], k['p'], k['q'], k['u']]
    return [k['x']]


def secret_body(which, version=4, created=1000000000, algorithm=None):
    """RFC 4880 5.5.3, not protected"""
    s = mpis(secret_values(which))
    return (public_body(which, version, created, algorithm) + b'\x00' + s
            + spec.be(sum(bytearray(s)) % 65536, 2))


def public(which, version=4, created=1000000000, algorithm=None, fmt=NEW):
    return T.TransferablePublicKey.from_packet(
        P.PublicKeyPacket.from_packet_content(fmt, 6, bytearray(
            public_body(which, version, created, algorithm))))


def secret(which, version=4, created=1000000000, algorithm=None, fmt=NEW):
    """unlocked"""
    k = T.TransferableSecretKey.from_packet(
        P.SecretKeyPacket.from_packet_content(fmt, 5, bytearray(
            secret_body(which, version, created, algorithm))))
    k.unlock(u'')
    return k


def protected_body(which, plain, alg, usage, specifier, iv, version=4,
                   created=1000000000, algorithm=None):
    """RFC 4880 5.5.3, the secret octets as they are stored"""
    return (public_body(which, version, created, algorithm)
            + spec.be(usage, 1) + spec.be(alg, 1) + specifier + iv + plain)


def locked(body, fmt=NEW):
    return T.TransferableSecretKey.from_packet(
        P.SecretKeyPacket.from_packet_content(fmt, 5, bytearray(body)))


def locked_subkey(primary, body, fmt=NEW):
    k = T.SecretSubkey.from_packet(
        primary, P.SecretSubkeyPacket.from_packet_content(
            fmt, 7, bytearray(body)))
    primary.subkeys.append(k)
    return k


def subkey(primary, which, version=4, created=1000000000, algorithm=None,
           fmt=NEW):
    return T.PublicSubkey.from_packet(
        primary, P.PublicSubkeyPacket.from_packet_content(
            fmt, 14, bytearray(public_body(which, version, created,
                                           algorithm))))


def secret_subkey(primary, which, version=4, created=1000000000,
                  algorithm=None, fmt=NEW):
    """locked; unlocking the primary key unlocks it"""
    return locked_subkey(primary, secret_body(which, version, created,
                                              algorithm), fmt)
