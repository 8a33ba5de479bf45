"""Component boundaries of a URL as affine expressions over part lengths."""
from absint import *


def expected(g, au, ui):
    """component -> (offset, length, delimiter-optional length) over the run's registers"""
    sc, us, pw, ho, po, pa, qu, fr = (g[k] for k in ('sc', 'us', 'pw', 'ho', 'po', 'pa', 'qu', 'fr'))
    sl = lconst(2 if au else 0)
    uid = lconst({0: 0, 1: 1, 2: 2}[ui])          # delimiters in userinfo
    o_us = ladd(sc, sl)
    o_pw = ladd(ladd(o_us, us), lconst(1 if ui == 2 else 0))
    o_ho = ladd(ladd(ladd(o_us, us), pw), uid)
    o_po = ladd(o_ho, ho)
    o_pa = ladd(o_po, po)
    o_qu = ladd(o_pa, pa)
    o_fr = ladd(o_qu, qu)
    o_en = ladd(o_fr, fr)
    one = L1

    def strip(o, n, st):
        """without the one-byte delimiter, if the part is present -> [(state, off, len)] is decided by caller"""
        return (ladd(o, one), lsub(n, one))
    uil = lsub(o_ho, o_us)
    E = {
        'encoded_url': (L0, o_en, None),
        'encoded_origin': (L0, o_pa, None),
        'scheme': (L0, sc, 'tail'),
        'encoded_authority': (o_us, lsub(o_pa, o_us), None),
        'encoded_userinfo': (o_us, uil, 'tail'),
        'userinfo_part': (o_us, uil, None),
        'encoded_user': (o_us, us, None),
        'encoded_password': (o_pw, pw, None),
        'encoded_host_and_port': (o_ho, ladd(ho, po), None),
        'encoded_host': (o_ho, ho, None),
        'port': (o_po, po, 'head'),
        'port_part': (o_po, po, None),
        'encoded_path': (o_pa, pa, None),
        'encoded_query': (o_qu, qu, 'head'),
        'query_part': (o_qu, qu, None),
        'encoded_fragment': (o_fr, fr, 'head'),
        'fragment_part': (o_fr, fr, None),
    }
    return E
