"""XML signatures as OpenADR uses them, made and checked independently of the code under test (lxml for
canonicalisation, cryptography for RSA).

A signed message is <oadr:oadrPayload><ds:Signature/><oadr:oadrSignedObject oadr:Id="oadrSignedObject"/></oadr:oadrPayload>;
the signature covers the signed object and the signature properties, which hold the time stamp and the nonce."""
import base64
import hashlib
import os
import re
from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import padding
from lxml import etree
import vclock
import wire

DS = 'http://www.w3.org/2000/09/xmldsig#'
DSP = 'http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties'
OADR = 'http://openadr.org/oadr-2.0b/2012/07'
C14N = 'http://www.w3.org/TR/2001/REC-xml-c14n-20010315'
EXC = 'http://www.w3.org/2001/10/xml-exc-c14n#'
NAMES = ['vtn', 'vtn2', 'ven1', 'ven2', 'mallory']
DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'certs')
SHA = {'sha256': (hashlib.sha256, hashes.SHA256(), 'http://www.w3.org/2001/04/xmlenc#sha256'),
       'sha512': (hashlib.sha512, hashes.SHA512(), 'http://www.w3.org/2001/04/xmlenc#sha512'),
       'sha384': (hashlib.sha384, hashes.SHA384(), 'http://www.w3.org/2001/04/xmldsig-more#sha384')}


def path(name, kind='crt'):
    return os.path.join(DIR, f'{name}.{kind}')


class Cert:
    def __init__(self, name):
        self.name = name
        with open(path(name), 'rb') as f:
            self.pem = f.read()
        with open(path(name, 'key'), 'rb') as f:
            self.keypem = f.read()
        self.key = serialization.load_pem_private_key(self.keypem, None)
        self.cert = x509.load_pem_x509_certificate(self.pem)
        self.der = self.cert.public_bytes(serialization.Encoding.DER)
        h = hashlib.sha256(self.der).hexdigest().upper()
        self.fingerprint = ':'.join(h[i:i + 2] for i in range(44, 64, 2))
        self.b64 = '\n'.join(self.pem.decode().strip().split('\n')[1:-1])


_certs = {}


def cert(name):
    if name not in _certs:
        _certs[name] = Cert(name)
    return _certs[name]


def named(fingerprint):
    for n in NAMES:
        if cert(n).fingerprint == fingerprint:
            return n
    return f'? {fingerprint}'


def c14n(el, exclusive=False):
    """canonical form of an element, in the context of its document"""
    return etree.tostring(el, method='c14n', exclusive=exclusive, with_comments=False)


def _ref(uri, digest, alg, how):
    trans = f'<ds:Transforms><ds:Transform Algorithm="{how}"/></ds:Transforms>' if how else ''
    return (f'<ds:Reference URI="{uri}">{trans}<ds:DigestMethod Algorithm="{SHA[alg][2]}"/>'
            f'<ds:DigestValue>{digest}</ds:DigestValue></ds:Reference>')


def stamp_text(t):
    """t: seconds since the epoch of the runs, or a text"""
    return t if isinstance(t, str) else wire.iso(t)


def protect(stamp, nonce, id_='myid'):
    s = '' if stamp is None else f'<dsp:timestamp>{wire.e(stamp_text(stamp))}</dsp:timestamp>'
    n = '' if nonce is None else f'<dsp:nonce>{wire.e(nonce)}</dsp:nonce>'
    return f'<dsp:ReplayProtect xmlns:dsp="{DSP}" Id="{id_}" Target="#mytarget">{s}{n}</dsp:ReplayProtect>'


def _digest(xml, find, alg, exclusive):
    root = etree.fromstring(xml)
    el = root.find(find)
    return base64.b64encode(SHA[alg][0](c14n(el, exclusive)).digest()).decode()


def sign(xml, key, stamp, nonce, shown=None, alg='sha256', exclusive=False, refs=('object', 'prop'), rp=None, chain=(),
         flat=False, hmac=False, keyinfo=None):
    """xml: an unsigned message (text).  key: whose private key; shown: whose certificate is shown; rp: contents of the
    signature property instead of a regular ReplayProtect; refs: what the signature refers to."""
    shown = shown or key
    how = EXC if exclusive else C14N
    if rp is None:
        rp = protect(stamp, nonce)
    prop = (f'<ds:Object Id="prop"><ds:SignatureProperties Id="props"><ds:SignatureProperty Id="property" Target="#mytarget">'
            f'{rp}</ds:SignatureProperty></ds:SignatureProperties></ds:Object>')
    head, rest = re.match(r'(.*?<oadr:oadrPayload[^>]*>)(.*)$', xml, re.S).groups()

    def whole(signedinfo, value):
        certs = ''.join(f'<ds:X509Certificate>{cert(c).b64.replace(chr(10), "") if flat else cert(c).b64}</ds:X509Certificate>'
                        for c in (shown,) + tuple(chain))
        ki = f'<ds:KeyInfo><ds:X509Data>{certs}</ds:X509Data></ds:KeyInfo>' if keyinfo is None else keyinfo
        return (f'{head}<ds:Signature xmlns:ds="{DS}">{signedinfo}<ds:SignatureValue>{value}</ds:SignatureValue>'
                f'{ki}{prop}</ds:Signature>{rest}')
    where = {'object': ('#oadrSignedObject', f'{{{OADR}}}oadrSignedObject'),
             'prop': ('#prop', f'{{{DS}}}Signature/{{{DS}}}Object')}
    first = whole('<ds:SignedInfo/>', '')
    rs = ''.join(_ref(where[r][0], _digest(first.encode(), where[r][1], alg, exclusive), alg, how) for r in refs)
    method = ('http://www.w3.org/2001/04/xmldsig-more#hmac-sha256' if hmac
              else f'http://www.w3.org/2001/04/xmldsig-more#rsa-{alg}')
    si = (f'<ds:SignedInfo><ds:CanonicalizationMethod Algorithm="{EXC if exclusive else C14N}"/>'
          f'<ds:SignatureMethod Algorithm="{method}"/>{rs}</ds:SignedInfo>')
    tbs = c14n(etree.fromstring(whole(si, '').encode()).find(f'{{{DS}}}Signature/{{{DS}}}SignedInfo'), exclusive)
    if hmac:
        import hmac as H
        v = H.new(cert(shown).pem, tbs, 'sha256').digest()
    else:
        v = cert(key).key.sign(tbs, padding.PKCS1v15(), SHA[alg][1])
    return whole(si, base64.b64encode(v).decode())


def signature(xml):
    return re.search(r'<ds:Signature .*?</ds:Signature>', xml, re.S).group(0)


def content(xml):
    return re.search(r'<oadr:oadrSignedObject.*</oadr:oadrSignedObject>', xml, re.S).group(0)


def wrap(xml, other):
    """Put the signed content out of sight, inside the signature, and other content in its place"""
    sig, obj = signature(xml), content(xml)
    forged = re.sub(r' oadr:Id="[^"]*"', '', content(other))
    d = f'xmlns:ds="{DS}"'
    new = sig.replace(f'<ds:Signature {d}', f'<Signature xmlns="{DS}"', 1).replace('</ds:Signature>', '</Signature>')
    for t in ('ds:SignedInfo', 'ds:SignatureValue', 'ds:KeyInfo'):
        new = new.replace(f'<{t}>', f'<{t} {d} xmlns="">')
    new = new.replace('<ds:Object Id="prop">', f'<ds:Object {d} xmlns="" Id="prop">')
    new = new.replace('</Signature>', '<Object>' + obj.replace('<oadr:oadrSignedObject', '<oadr:oadrSignedObject xmlns=""', 1)
                      + '</Object></Signature>')
    return xml.replace(obj, '@@').replace(sig, new).replace('@@', forged)


class Bad(Exception):
    pass


def verify(data):
    """-> (name of the certificate, time stamp in seconds, nonce) of a validly signed message, None if it is unsigned;
    raises Bad if the signature is not right"""
    root = etree.fromstring(data if isinstance(data, bytes) else data.encode())
    sig = root.find(f'{{{DS}}}Signature')
    if sig is None:
        return None
    q = lambda x: '/'.join(f'{{{DS}}}{i}' for i in x.split('/'))
    si = sig.find(q('SignedInfo'))
    how = si.find(q('CanonicalizationMethod')).get('Algorithm')
    shown = base64.b64decode(sig.find(q('KeyInfo/X509Data/X509Certificate')).text)
    who = [n for n in NAMES if cert(n).der == shown]
    if not who:
        raise Bad('unknown certificate')
    alg = si.find(q('SignatureMethod')).get('Algorithm').rsplit('-', 1)[-1]
    try:
        cert(who[0]).cert.public_key().verify(base64.b64decode(sig.find(q('SignatureValue')).text), c14n(si, how == EXC),
                                              padding.PKCS1v15(), SHA[alg][1])
    except Exception as err:
        raise Bad(f'signature value {err!r}')
    ids = {}
    for el in root.iter():
        if isinstance(el.tag, str):
            for k in ('Id', f'{{{OADR}}}Id'):
                if el.get(k):
                    ids.setdefault(el.get(k), []).append(el)
    covered = []
    for ref in si.findall(q('Reference')):
        els = ids.get(ref.get('URI', '')[1:], [])
        if len(els) != 1:
            raise Bad(f'{len(els)} elements for {ref.get("URI")}')
        tr = [t.get('Algorithm') for t in ref.findall(q('Transforms/Transform'))]
        alg = [a for a in SHA if SHA[a][2] == ref.find(q('DigestMethod')).get('Algorithm')][0]
        if base64.b64encode(SHA[alg][0](c14n(els[0], EXC in tr)).digest()).decode() != ref.find(q('DigestValue')).text:
            raise Bad(f'digest of {ref.get("URI")}')
        covered.append(els[0])
    if root.find(f'{{{OADR}}}oadrSignedObject') not in covered:
        raise Bad('content not covered')
    rp = [r for el in covered for r in el.iter(f'{{{DSP}}}ReplayProtect')]
    if len(rp) != 1:
        raise Bad(f'{len(rp)} ReplayProtect elements')
    t, n = rp[0].findtext(f'{{{DSP}}}timestamp'), rp[0].findtext(f'{{{DSP}}}nonce')
    if not t or not n:
        raise Bad('ReplayProtect incomplete')
    return who[0], wire.untime(t), n


def install():
    """Loading a private key takes far longer than signing: do it once per key"""
    import functools
    try:
        import signxml.signer as S
        load = S.load_pem_private_key
    except (ImportError, AttributeError):
        return
    memo = functools.lru_cache(None)(lambda key, password: load(key, password=password))
    S.load_pem_private_key = lambda data, password=None, *a, **k: memo(bytes(data), password)
