"""Defects which are recorded rather than repaired (known_findings.json):
each of these fails while its defect is there."""
from vc import bounded
from contracts import c17


@bounded(once=True)
def user_id_after_attribute(v):
    """key, attribute, certification, user ID: RFC 4880 11.1 lets user IDs
    and user attributes be freely intermixed"""
    word = 'KACU'
    assert c17.ORDER.match(word)
    packets = [c17.cached(x, i, False, 4) for i, x in enumerate(word)]
    v.check_eq('accepted', v.outcome(
        c17.CLASSES[0].from_packets, packets)[0], 'ok')
