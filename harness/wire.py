"""OpenADR 2.0b messages, built and read independently of the code under test.

Builders return XML text; `read` turns XML into plain JSON-like data and checks it against the OpenADR schema.
Times are seconds since vclock.EPOCH."""
import datetime as _dt
import math
import os
import re
import uuid
from xml.sax.saxutils import escape as _esc
from lxml import etree
import vclock

HERE = os.path.dirname(os.path.abspath(__file__))
_schema = None


def schema():
    global _schema
    if _schema is None:
        _schema = etree.XMLSchema(etree.parse(os.path.join(HERE, 'schema', 'oadr_20b.xsd')))
    return _schema


NS = ('xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07" '
      'xmlns:ei="http://docs.oasis-open.org/ns/energyinterop/201110" '
      'xmlns:pyld="http://docs.oasis-open.org/ns/energyinterop/201110/payloads" '
      'xmlns:emix="http://docs.oasis-open.org/ns/emix/2011/06" '
      'xmlns:xcal="urn:ietf:params:xml:ns:icalendar-2.0" '
      'xmlns:strm="urn:ietf:params:xml:ns:icalendar-2.0:stream" '
      'xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power" '
      'xmlns:scale="http://docs.oasis-open.org/ns/emix/2011/06/siscale"')


def e(x):
    return _esc(str(x))


def iso(t):
    d = vclock.EPOCH + _dt.timedelta(seconds=t)
    s = d.strftime('%Y-%m-%dT%H:%M:%S')
    return s + (f'.{d.microsecond:06d}Z' if d.microsecond else 'Z')


def dur(s):
    """seconds -> ISO duration"""
    s = int(s)
    if s == 0:
        return 'PT0S'
    sign = '-' if s < 0 else ''
    s = abs(s)
    d, r = divmod(s, 86400)
    h, r = divmod(r, 3600)
    m, r = divmod(r, 60)
    return sign + 'P' + (f'{d}D' if d else '') + ('T' if h or m or r else '') + (f'{h}H' if h else '') \
        + (f'{m}M' if m else '') + (f'{r}S' if r else '')


def undur(x):
    m = re.fullmatch(r'([+-])?P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?', x.strip())
    if not m:
        return 'BAD:' + x
    w, d, h, mi, s = (int(g) if g else 0 for g in m.groups()[1:])
    v = ((w * 7 + d) * 24 + h) * 3600 + mi * 60 + s
    return -v if m.group(1) == '-' else v


def untime(x):
    x = x.strip()
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)?', x)
    if not m:
        return 'BAD:' + x
    y, mo, d, h, mi, s = map(int, m.groups()[:6])
    t = (vclock.REAL_DATETIME(y, mo, d, h, mi, s, tzinfo=_dt.timezone.utc) - vclock.EPOCH).total_seconds()
    z = m.group(8)
    if z and z != 'Z':
        off = (int(z[1:3]) * 60 + int(z[4:6])) * 60
        t -= off if z[0] == '+' else -off
    f = m.group(7)
    if f and int(f):
        return round(t + float('0.' + f), 6)
    return int(t)


def signed_object(inner, type_):
    return (f'<oadr:oadrSignedObject {NS} oadr:Id="oadrSignedObject">'
            f'<oadr:{type_} ei:schemaVersion="2.0b">{inner}</oadr:{type_}></oadr:oadrSignedObject>')


def payload(inner, type_):
    return ('<?xml version="1.0" encoding="utf-8"?>\n'
            f'<oadr:oadrPayload xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07">'
            f'{signed_object(inner, type_)}</oadr:oadrPayload>')


def rid():
    return 'rq-' + uuid.uuid4().hex[:12]


def opt(tag, v, f=e):
    return '' if v is None else f'<{tag}>{f(v)}</{tag}>'


def eiresponse(code=200, request_id='', desc='OK'):
    return (f'<ei:eiResponse><ei:responseCode>{code}</ei:responseCode>'
            f'<ei:responseDescription>{e(desc)}</ei:responseDescription>'
            f'<pyld:requestID>{e(request_id)}</pyld:requestID></ei:eiResponse>')


# ---------------------------------------------------------------- VEN -> VTN
def poll(ven_id):
    return payload(f'<ei:venID>{e(ven_id)}</ei:venID>', 'oadrPoll')


def request_event(ven_id, request_id, limit=None):
    return payload(f'<pyld:eiRequestEvent><pyld:requestID>{e(request_id)}</pyld:requestID><ei:venID>{e(ven_id)}'
                   f'</ei:venID>{opt("pyld:replyLimit", limit)}</pyld:eiRequestEvent>', 'oadrRequestEvent')


def created_event(ven_id, responses, request_id=''):
    """responses: list of dict(id, mod, opt, rq)"""
    r = ''.join(f'<ei:eventResponse><ei:responseCode>{x.get("code", 200)}</ei:responseCode>'
                f'<ei:responseDescription>OK</ei:responseDescription>'
                f'<pyld:requestID>{e(x.get("rq", "r"))}</pyld:requestID><ei:qualifiedEventID>'
                f'<ei:eventID>{e(x["id"])}</ei:eventID><ei:modificationNumber>{x["mod"]}</ei:modificationNumber>'
                f'</ei:qualifiedEventID><ei:optType>{x["opt"]}</ei:optType></ei:eventResponse>' for x in responses)
    rs = f'<ei:eventResponses>{r}</ei:eventResponses>' if responses else ''
    return payload(f'<pyld:eiCreatedEvent>{eiresponse(200, request_id)}{rs}<ei:venID>{e(ven_id)}</ei:venID>'
                   f'</pyld:eiCreatedEvent>', 'oadrCreatedEvent')


def query_registration(request_id):
    return payload(f'<pyld:requestID>{e(request_id)}</pyld:requestID>', 'oadrQueryRegistration')


def create_party_registration(request_id, ven_name, ven_id=None, registration_id=None, profile='2.0b',
                              transport='simpleHttp', address=None, report_only=False, xml_signature=False,
                              pull=True):
    b = lambda x: 'true' if x else 'false'
    return payload(f'<pyld:requestID>{e(request_id)}</pyld:requestID>{opt("ei:registrationID", registration_id)}'
                   f'{opt("ei:venID", ven_id)}<oadr:oadrProfileName>{profile}</oadr:oadrProfileName>'
                   f'<oadr:oadrTransportName>{transport}</oadr:oadrTransportName>'
                   f'<oadr:oadrTransportAddress>{e(address)}</oadr:oadrTransportAddress>'
                   f'<oadr:oadrReportOnly>{b(report_only)}</oadr:oadrReportOnly>'
                   f'<oadr:oadrXmlSignature>{b(xml_signature)}</oadr:oadrXmlSignature>'
                   f'<oadr:oadrVenName>{e(ven_name)}</oadr:oadrVenName>'
                   f'<oadr:oadrHttpPullModel>{b(pull)}</oadr:oadrHttpPullModel>', 'oadrCreatePartyRegistration')


def cancel_party_registration(request_id, registration_id, ven_id):
    return payload(f'<pyld:requestID>{e(request_id)}</pyld:requestID><ei:registrationID>{e(registration_id)}'
                   f'</ei:registrationID>{opt("ei:venID", ven_id)}', 'oadrCancelPartyRegistration')


def canceled_party_registration(request_id, registration_id, ven_id, code=200):
    return payload(f'{eiresponse(code, request_id)}<ei:registrationID>{e(registration_id)}</ei:registrationID>'
                   f'<ei:venID>{e(ven_id)}</ei:venID>', 'oadrCanceledPartyRegistration')


def response(ven_id=None, code=200, request_id='', desc='OK'):
    return payload(f'{eiresponse(code, request_id, desc)}{opt("ei:venID", ven_id)}', 'oadrResponse')


def measurement(m):
    """m: dict(ns, name, description, unit, scale, pa=(hertz, voltage, ac))"""
    if m is None:
        return ''
    p = f'{m["ns"]}:'
    pa = ''
    if m.get('pa'):
        h, v, ac = m['pa']
        pa = (f'<power:powerAttributes><power:hertz>{h}</power:hertz><power:voltage>{v}</power:voltage>'
              f'<power:ac>{"true" if ac else "false"}</power:ac></power:powerAttributes>')
    if m.get('pulse') is not None:
        sc = f'<oadr:pulseFactor>{m["pulse"]}</oadr:pulseFactor>'
    elif m.get('scale') is not None:
        sc = f'<scale:siScaleCode>{m["scale"]}</scale:siScaleCode>'
    else:
        sc = ''
    return (f'<{p}{m["name"]}><{p}itemDescription>{e(m["description"])}</{p}itemDescription>'
            f'<{p}itemUnits>{e(m["unit"])}</{p}itemUnits>{sc}{pa}</{p}{m["name"]}>')


def meas_flat(m):
    """a measurement as given to `measurement` or as read from a message -> canonical"""
    if m is None:
        return None
    pa = m.get('pa')
    return [m['name'], m['description'], m['unit'], str(m.get('scale') or ''), str(m.get('pulse') or ''),
            [str(x).lower() for x in pa] if pa else []]


def meas_seen(m):
    """a measurement as applications are given it -> canonical"""
    if m is None:
        return None
    pa = m.get('power_attributes')
    return [m['name'], m['description'], m['unit'], str(m.get('scale') or ''), str(m.get('pulse_factor') or ''),
            [str(pa['hertz']), str(pa['voltage']), str(pa['ac']).lower()] if pa else []]


MEASUREMENTS = [dict(ns='power', name='voltage', description='Voltage', unit='V', scale='none'),
                dict(ns='power', name='powerReal', description='RealPower', unit='W', scale='k', pa=(50, 230, True)),
                dict(ns='power', name='powerReal', description='RealPower', unit='J/s', scale='none', pa=(60, 110, False)),
                dict(ns='power', name='energyReal', description='RealEnergy', unit='Wh', scale='M'),
                dict(ns='oadr', name='current', description='Current', unit='A', scale='none'),
                dict(ns='oadr', name='customUnit', description='Things & more', unit='boxes', scale='none'),
                dict(ns='oadr', name='customUnit', description='12', unit='07', scale='none'),
                dict(ns='oadr', name='pulseCount', description='pulse count', unit='count', pulse='1000')]


def report_description(d):
    """d: dict(r_id, resource, type, reading, meas, min, max, onchange, context)"""
    src = (f'<ei:reportDataSource><ei:resourceID>{e(d["resource"])}</ei:resourceID></ei:reportDataSource>'
           if d.get('resource') is not None else '')
    rate = ''
    if d.get('min') is not None:
        rate = (f'<oadr:oadrSamplingRate><oadr:oadrMinPeriod>{dur(d["min"])}</oadr:oadrMinPeriod>'
                f'<oadr:oadrMaxPeriod>{dur(d["max"])}</oadr:oadrMaxPeriod>'
                f'<oadr:oadrOnChange>{"true" if d.get("onchange") else "false"}</oadr:oadrOnChange>'
                f'</oadr:oadrSamplingRate>')
    return (f'<oadr:oadrReportDescription><ei:rID>{e(d["r_id"])}</ei:rID>{src}'
            f'<ei:reportType>{d.get("type", "reading")}</ei:reportType>{measurement(d.get("meas"))}'
            f'<ei:readingType>{d.get("reading", "Direct Read")}</ei:readingType>'
            f'{opt("emix:marketContext", d.get("context"))}{rate}</oadr:oadrReportDescription>')


def register_report(request_id, ven_id, reports):
    """reports: dict(spec, name, duration, rds, created)"""
    rs = ''.join('<oadr:oadrReport>'
                 + (f'<xcal:duration><xcal:duration>{dur(r["duration"])}</xcal:duration></xcal:duration>'
                    if r.get('duration') is not None else '')
                 + ''.join(report_description(d) for d in r['rds'])
                 + f'<ei:reportRequestID>{e(r.get("req", 0))}</ei:reportRequestID>'
                   f'<ei:reportSpecifierID>{e(r["spec"])}</ei:reportSpecifierID>'
                   f'<ei:reportName>{e(r["name"])}</ei:reportName>'
                   f'<ei:createdDateTime>{iso(r.get("created", 0))}</ei:createdDateTime></oadr:oadrReport>'
                 for r in reports)
    return payload(f'<pyld:requestID>{e(request_id)}</pyld:requestID>{rs}{opt("ei:venID", ven_id)}',
                   'oadrRegisterReport')


def written(x, n):
    """The number x in one of the ways in which it can be written"""
    f = float(x)
    if not math.isfinite(f):
        return x
    ways = [x, x, repr(f), f'{f:.10E}', f'{f:.10e}'.replace('e+', 'e'), ('+' if f >= 0 else '') + x]
    if '.' in x:
        ways.append(x + '0')
    elif x.lstrip('-'):
        ways += [x + '.', x.replace('-', '-0') if f < 0 else '00' + x]
    if x.startswith('0.'):
        ways.append(x[1:])
    return ways[n % len(ways)]


def update_report(request_id, ven_id, reports):
    """reports: dict(req, spec, name, intervals=[dict(t, r_id, value, dur)], dtstart, created)"""
    out = ''
    for r in reports:
        iv = ''.join(f'<ei:interval><xcal:dtstart><xcal:date-time>{iso(i["t"])}</xcal:date-time></xcal:dtstart>'
                     + (f'<xcal:duration><xcal:duration>{dur(i["dur"])}</xcal:duration></xcal:duration>'
                        if i.get('dur') is not None else '')
                     + f'<oadr:oadrReportPayload><ei:rID>{e(i["r_id"])}</ei:rID>'
                       f'<ei:payloadFloat><ei:value>{written(i["value"], i["t"])}</ei:value></ei:payloadFloat>'
                       f'</oadr:oadrReportPayload></ei:interval>' for i in r.get('intervals', []))
        out += ('<oadr:oadrReport>'
                + (f'<xcal:dtstart><xcal:date-time>{iso(r["dtstart"])}</xcal:date-time></xcal:dtstart>'
                   if r.get('dtstart') is not None else '')
                + (f'<strm:intervals>{iv}</strm:intervals>' if iv else '')
                + f'<ei:eiReportID>{e(r.get("id", "rep"))}</ei:eiReportID>'
                  f'<ei:reportRequestID>{e(r["req"])}</ei:reportRequestID>'
                  f'<ei:reportSpecifierID>{e(r["spec"])}</ei:reportSpecifierID>'
                + opt('ei:reportName', r.get('name'))
                + f'<ei:createdDateTime>{iso(r.get("created", 0))}</ei:createdDateTime></oadr:oadrReport>')
    return payload(f'<pyld:requestID>{e(request_id)}</pyld:requestID>{out}{opt("ei:venID", ven_id)}',
                   'oadrUpdateReport')


def pending(ids):
    return ('<oadr:oadrPendingReports>' + ''.join(f'<ei:reportRequestID>{e(i)}</ei:reportRequestID>' for i in ids)
            + '</oadr:oadrPendingReports>')


def created_report(request_id, ven_id, ids, code=200):
    return payload(f'{eiresponse(code, request_id)}{pending(ids)}{opt("ei:venID", ven_id)}', 'oadrCreatedReport')


def canceled_report(request_id, ven_id, ids, code=200):
    return payload(f'{eiresponse(code, request_id)}{pending(ids)}{opt("ei:venID", ven_id)}', 'oadrCanceledReport')


def create_opt(request_id, ven_id, opt_id, opt_type='optIn', reason='economic', event=None, mod=0, comps=(),
               created=0):
    v = ''
    if comps:
        v = '<xcal:vavailability><xcal:components>' + ''.join(
            f'<xcal:available><xcal:properties><xcal:dtstart><xcal:date-time>{iso(t)}</xcal:date-time></xcal:dtstart>'
            f'<xcal:duration><xcal:duration>{dur(d)}</xcal:duration></xcal:duration></xcal:properties>'
            f'</xcal:available>' for t, d in comps) + '</xcal:components></xcal:vavailability>'
    q = ''
    if event is not None:
        q = (f'<ei:qualifiedEventID><ei:eventID>{e(event)}</ei:eventID><ei:modificationNumber>{mod}'
             f'</ei:modificationNumber></ei:qualifiedEventID>')
    return payload(f'<ei:optID>{e(opt_id)}</ei:optID><ei:optType>{opt_type}</ei:optType><ei:optReason>{reason}'
                   f'</ei:optReason><ei:venID>{e(ven_id)}</ei:venID>{v}<ei:createdDateTime>{iso(created)}'
                   f'</ei:createdDateTime><pyld:requestID>{e(request_id)}</pyld:requestID>{q}'
                   f'<ei:eiTarget><ei:venID>{e(ven_id)}</ei:venID></ei:eiTarget>', 'oadrCreateOpt')


def cancel_opt(request_id, ven_id, opt_id):
    return payload(f'<pyld:requestID>{e(request_id)}</pyld:requestID><ei:optID>{e(opt_id)}</ei:optID>'
                   f'<ei:venID>{e(ven_id)}</ei:venID>', 'oadrCancelOpt')


# ---------------------------------------------------------------- VTN -> VEN
def created_party_registration(request_id, registration_id=None, ven_id=None, vtn_id='VTN1', poll=None, code=200,
                               desc='OK'):
    freq = '' if poll is None else (f'<oadr:oadrRequestedOadrPollFreq><xcal:duration>{dur(poll)}</xcal:duration>'
                                    f'</oadr:oadrRequestedOadrPollFreq>')
    return payload(f'{eiresponse(code, request_id, desc)}'
                   f'{opt("ei:registrationID", registration_id) }{opt("ei:venID", ven_id)}'
                   f'<ei:vtnID>{e(vtn_id)}</ei:vtnID><oadr:oadrProfiles><oadr:oadrProfile><oadr:oadrProfileName>2.0b'
                   f'</oadr:oadrProfileName><oadr:oadrTransports><oadr:oadrTransport><oadr:oadrTransportName>simpleHttp'
                   f'</oadr:oadrTransportName></oadr:oadrTransport></oadr:oadrTransports></oadr:oadrProfile>'
                   f'</oadr:oadrProfiles>{freq}', 'oadrCreatedPartyRegistration')


def signal(s):
    """s: dict(name, type, id, intervals=[dict(t, dur, val)], meas, cur)"""
    iv = ''
    for n, i in enumerate(s['intervals']):
        ds = (f'<xcal:dtstart><xcal:date-time>{iso(i["t"])}</xcal:date-time></xcal:dtstart>'
              if i.get('t') is not None else '')
        iv += (f'<ei:interval>{ds}<xcal:duration><xcal:duration>{dur(i["dur"])}</xcal:duration></xcal:duration>'
               f'<xcal:uid><xcal:text>{n}</xcal:text></xcal:uid><ei:signalPayload><ei:payloadFloat>'
               f'<ei:value>{i["val"]}</ei:value></ei:payloadFloat></ei:signalPayload></ei:interval>')
    cur = '' if s.get('cur') is None else (f'<ei:currentValue><ei:payloadFloat><ei:value>{s["cur"]}</ei:value>'
                                           f'</ei:payloadFloat></ei:currentValue>')
    tg = targets([['end_device_asset', x] for x in s['tg']]) if s.get('tg') else ''
    return (f'<ei:eiEventSignal><strm:intervals>{iv}</strm:intervals>{tg}<ei:signalName>{e(s["name"])}</ei:signalName>'
            f'<ei:signalType>{s["type"]}</ei:signalType><ei:signalID>{e(s["id"])}</ei:signalID>'
            f'{measurement(s.get("meas"))}{cur}</ei:eiEventSignal>')


TARGETS = [('aggregated_p_node', 'power:aggregatedPnode', 'node'), ('end_device_asset', 'power:endDeviceAsset', 'mrid'),
           ('meter_asset', 'power:meterAsset', 'mrid'), ('p_node', 'power:pnode', 'node'),
           ('service_delivery_point', 'power:serviceDeliveryPoint', 'node'),
           ('transport_interface', 'power:transportInterface', 'pointOfReceipt', 'pointOfDelivery'),
           ('group_id', 'ei:groupID'), ('group_name', 'ei:groupName'), ('resource_id', 'ei:resourceID'),
           ('ven_id', 'ei:venID'), ('party_id', 'ei:partyID')]
PARTS = {'mrid': 'mrid', 'node': 'node', 'pointOfReceipt': 'point_of_receipt', 'pointOfDelivery': 'point_of_delivery'}


def target_parts(kind, x):
    """the value of a target as the applications write it: text, or a dict for assets and nodes (written a>b here)"""
    parts = [t for k, _, *t in TARGETS if k == kind][0]
    return dict(zip([PARTS[i] for i in parts], x.split('>'))) if parts else x


def target_flat(kind, v):
    parts = [t for k, _, *t in TARGETS if k == kind]
    if not parts or not parts[0]:
        return v
    return '>'.join(v[PARTS[i]] for i in parts[0]) if set(v) == {PARTS[i] for i in parts[0]} else repr(v)


def targets(ts):
    out = ''
    for k, tag, *parts in TARGETS:
        for kk, x in ts:
            if kk == k:
                inner = ''.join(f'<power:{i}>{e(y)}</power:{i}>' for i, y in zip(parts, x.split('>'))) if parts else e(x)
                out += f'<{tag}>{inner}</{tag}>'
    return f'<ei:eiTarget>{out}</ei:eiTarget>'


def event(v):
    """v: dict(id, mod, prio, ctx, created, status, test, comment, start, dur, notif, ramp, recov, tol, signals,
    targets=[[kind, value]], resp)"""
    per = lambda tag, x: '' if x is None else f'<ei:{tag}><xcal:duration>{dur(x)}</xcal:duration></ei:{tag}>'
    tol = '' if v.get('tol') is None else (f'<xcal:tolerance><xcal:tolerate><xcal:startafter>{dur(v["tol"])}'
                                           f'</xcal:startafter></xcal:tolerate></xcal:tolerance>')
    test = v.get('test')
    return (f'<oadr:oadrEvent><ei:eiEvent><ei:eventDescriptor><ei:eventID>{e(v["id"])}</ei:eventID>'
            f'<ei:modificationNumber>{v.get("mod", 0)}</ei:modificationNumber>'
            f'{opt("ei:priority", v.get("prio"))}'
            f'<ei:eiMarketContext><emix:marketContext>{e(v.get("ctx", "http://ctx"))}</emix:marketContext>'
            f'</ei:eiMarketContext><ei:createdDateTime>{iso(v.get("created", 0))}</ei:createdDateTime>'
            f'<ei:eventStatus>{v.get("status", "far")}</ei:eventStatus>'
            + ('' if test is None else f'<ei:testEvent>{e(test)}</ei:testEvent>')
            + opt('ei:vtnComment', v.get('comment'))
            + f'</ei:eventDescriptor><ei:eiActivePeriod><xcal:properties><xcal:dtstart><xcal:date-time>{iso(v["start"])}'
              f'</xcal:date-time></xcal:dtstart><xcal:duration><xcal:duration>{dur(v["dur"])}</xcal:duration>'
              f'</xcal:duration>{tol}{per("x-eiNotification", v.get("notif"))}{per("x-eiRampUp", v.get("ramp"))}'
              f'{per("x-eiRecovery", v.get("recov"))}</xcal:properties><xcal:components/></ei:eiActivePeriod>'
              f'<ei:eiEventSignals>{"".join(signal(s) for s in v["signals"])}</ei:eiEventSignals>'
              f'{targets(v.get("targets", []))}</ei:eiEvent>'
              f'<oadr:oadrResponseRequired>{v.get("resp", "always")}</oadr:oadrResponseRequired></oadr:oadrEvent>')


def distribute_event(request_id, events, vtn_id='VTN1', response_id=None):
    r = '' if response_id is None else eiresponse(200, response_id)
    return payload(f'{r}<pyld:requestID>{e(request_id)}</pyld:requestID><ei:vtnID>{e(vtn_id)}</ei:vtnID>'
                   + ''.join(event(v) for v in events), 'oadrDistributeEvent')


def report_request(r):
    """r: dict(req, spec, gran, back, interval=(t, dur) or None, items=[dict(r_id, reading, meas)])"""
    iv = ''
    if r.get('interval'):
        iv = (f'<ei:reportInterval><xcal:properties><xcal:dtstart><xcal:date-time>{iso(r["interval"][0])}'
              f'</xcal:date-time></xcal:dtstart><xcal:duration><xcal:duration>{dur(r["interval"][1])}</xcal:duration>'
              f'</xcal:duration></xcal:properties></ei:reportInterval>')
    gran = '' if r.get('gran') is None else \
        f'<xcal:granularity><xcal:duration>{dur(r["gran"])}</xcal:duration></xcal:granularity>'
    back = '' if r.get('back') is None else \
        f'<ei:reportBackDuration><xcal:duration>{dur(r["back"])}</xcal:duration></ei:reportBackDuration>'
    items = ''.join(f'<ei:specifierPayload><ei:rID>{e(i["r_id"])}</ei:rID>{measurement(i.get("meas"))}'
                    f'<ei:readingType>{i.get("reading", "Direct Read")}</ei:readingType></ei:specifierPayload>'
                    for i in r['items'])
    return (f'<oadr:oadrReportRequest><ei:reportRequestID>{e(r["req"])}</ei:reportRequestID><ei:reportSpecifier>'
            f'<ei:reportSpecifierID>{e(r["spec"])}</ei:reportSpecifierID>{gran}{back}{iv}{items}</ei:reportSpecifier>'
            f'</oadr:oadrReportRequest>')


def registered_report(request_id, ven_id, requests, code=200):
    return payload(f'{eiresponse(code, request_id)}{"".join(map(report_request, requests))}'
                   f'{opt("ei:venID", ven_id)}', 'oadrRegisteredReport')


def create_report(request_id, ven_id, requests):
    return payload(f'<pyld:requestID>{e(request_id)}</pyld:requestID>{"".join(map(report_request, requests))}'
                   f'{opt("ei:venID", ven_id)}', 'oadrCreateReport')


def cancel_report_body(request_id, ids, follow=False, ven_id=None):
    return (f'<pyld:requestID>{e(request_id)}</pyld:requestID>'
            + ''.join(f'<ei:reportRequestID>{e(i)}</ei:reportRequestID>' for i in ids)
            + f'<pyld:reportToFollow>{"true" if follow else "false"}</pyld:reportToFollow>{opt("ei:venID", ven_id)}')


def cancel_report(request_id, ids, follow=False, ven_id=None):
    return payload(cancel_report_body(request_id, ids, follow, ven_id), 'oadrCancelReport')


def updated_report(request_id, ven_id=None, cancel=None, code=200):
    """cancel: dict(rq, ids, follow)"""
    c = ''
    if cancel:
        c = ('<oadr:oadrCancelReport ei:schemaVersion="2.0b">'
             + cancel_report_body(cancel['rq'], cancel['ids'], cancel.get('follow', False), ven_id)
             + '</oadr:oadrCancelReport>')
    return payload(f'{eiresponse(code, request_id)}{c}{opt("ei:venID", ven_id)}', 'oadrUpdatedReport')


def request_reregistration(ven_id):
    return payload(f'<ei:venID>{e(ven_id)}</ei:venID>', 'oadrRequestReregistration')


def created_opt(request_id, opt_id, code=200):
    return payload(f'{eiresponse(code, request_id)}<ei:optID>{e(opt_id)}</ei:optID>', 'oadrCreatedOpt')


def canceled_opt(request_id, opt_id=None, code=200):
    opt = '' if opt_id is None else f'<ei:optID>{e(opt_id)}</ei:optID>'
    return payload(f'{eiresponse(code, request_id)}{opt}', 'oadrCanceledOpt')


# ---------------------------------------------------------------- reading
def ln(x):
    return etree.QName(x).localname


def kids(x, name):
    return [c for c in x if isinstance(c.tag, str) and ln(c) == name]


def at(x, path):
    for p in path.split('/'):
        if x is None:
            return None
        k = kids(x, p)
        x = k[0] if k else None
    return x


def txt(x, path, missing=None):
    n = at(x, path)
    return missing if n is None else (n.text or '')


def num(x):
    """canonical number: '5', '0.25'"""
    if x is None:
        return None
    try:
        f = float(x)
    except (TypeError, ValueError):
        return 'BAD:' + str(x)
    if not math.isfinite(f):
        return 'NaN' if math.isnan(f) else 'INF' if f > 0 else '-INF'
    return str(int(f)) if f == int(f) else repr(f)


def read_measurement(x):
    for c in x:
        if not isinstance(c.tag, str):
            continue
        d = [k for k in c if isinstance(k.tag, str) and ln(k) == 'itemDescription']
        if d:
            pa = at(c, 'powerAttributes')
            return {'name': ln(c), 'description': txt(c, 'itemDescription'), 'unit': txt(c, 'itemUnits'),
                    'scale': txt(c, 'siScaleCode'), 'pulse': txt(c, 'pulseFactor'),
                    'pa': None if pa is None else [txt(pa, 'hertz'), txt(pa, 'voltage'), txt(pa, 'ac')]}
    return None


def read_targets(x):
    out = []
    if x is None:
        return out
    for c in x:
        if isinstance(c.tag, str):
            for k, tag, *parts in TARGETS:
                if ln(c) == tag.split(':')[1]:
                    out.append([k, '>'.join(txt(c, i) or '' for i in parts) if parts else c.text or ''])
    return out


def _tm(x):
    return None if x is None else untime(x)


def _du(x):
    return None if x is None else undur(x)


def read_event(o):
    x = at(o, 'eiEvent')
    d = at(x, 'eventDescriptor')
    p = at(x, 'eiActivePeriod/properties')
    sig = []
    for s in kids(at(x, 'eiEventSignals'), 'eiEventSignal'):
        sig.append({'name': txt(s, 'signalName'), 'type': txt(s, 'signalType'), 'id': txt(s, 'signalID'),
                    'cur': num(txt(s, 'currentValue/payloadFloat/value')), 'meas': read_measurement(s),
                    'targets': read_targets(at(s, 'eiTarget')),
                    'intervals': [{'t': _tm(txt(i, 'dtstart/date-time')), 'dur': _du(txt(i, 'duration/duration')),
                                   'uid': txt(i, 'uid/text'), 'val': num(txt(i, 'signalPayload/payloadFloat/value'))}
                                  for i in kids(at(s, 'intervals'), 'interval')]})
    return {'id': txt(d, 'eventID'), 'mod': int(txt(d, 'modificationNumber')), 'prio': num(txt(d, 'priority')),
            'ctx': txt(d, 'eiMarketContext/marketContext'), 'created': _tm(txt(d, 'createdDateTime')),
            'status': txt(d, 'eventStatus'), 'test': txt(d, 'testEvent'), 'comment': txt(d, 'vtnComment'),
            'start': _tm(txt(p, 'dtstart/date-time')), 'dur': _du(txt(p, 'duration/duration')),
            'tol': _du(txt(p, 'tolerance/tolerate/startafter')), 'notif': _du(txt(p, 'x-eiNotification/duration')),
            'ramp': _du(txt(p, 'x-eiRampUp/duration')), 'recov': _du(txt(p, 'x-eiRecovery/duration')),
            'signals': sig, 'targets': read_targets(at(x, 'eiTarget')), 'resp': txt(o, 'oadrResponseRequired')}


def read_report_request(x):
    s = at(x, 'reportSpecifier')
    return {'req': txt(x, 'reportRequestID'), 'spec': txt(s, 'reportSpecifierID'),
            'gran': _du(txt(s, 'granularity/duration')), 'back': _du(txt(s, 'reportBackDuration/duration')),
            'items': [{'r_id': txt(i, 'rID'), 'reading': txt(i, 'readingType')} for i in kids(s, 'specifierPayload')]}


def read_report(x):
    rds = []
    for d in kids(x, 'oadrReportDescription'):
        rds.append({'r_id': txt(d, 'rID'), 'resource': txt(d, 'reportDataSource/resourceID'),
                    'type': txt(d, 'reportType'), 'reading': txt(d, 'readingType'), 'meas': read_measurement(d),
                    'context': txt(d, 'marketContext'), 'min': _du(txt(d, 'oadrSamplingRate/oadrMinPeriod')),
                    'max': _du(txt(d, 'oadrSamplingRate/oadrMaxPeriod')),
                    'onchange': txt(d, 'oadrSamplingRate/oadrOnChange')})
    iv = []
    ivs = at(x, 'intervals')
    for i in (kids(ivs, 'interval') if ivs is not None else []):
        for pl in kids(i, 'oadrReportPayload'):
            iv.append({'t': _tm(txt(i, 'dtstart/date-time')), 'dur': _du(txt(i, 'duration/duration')),
                       'r_id': txt(pl, 'rID'), 'value': num(txt(pl, 'payloadFloat/value'))})
    return {'req': txt(x, 'reportRequestID'), 'spec': txt(x, 'reportSpecifierID'), 'name': txt(x, 'reportName'),
            'rds': rds, 'intervals': iv, 'dtstart': _tm(txt(x, 'dtstart/date-time')),
            'duration': _du(txt(x, 'duration/duration'))}


class Msg(dict):
    __getattr__ = dict.get


def _read(data, validate=True):
    """-> Msg(type, valid, ...); type 'GARBAGE' if it is not an OpenADR payload."""
    if isinstance(data, str):
        data = data.encode('utf-8')
    try:
        tree = etree.fromstring(data)
    except Exception as err:
        return Msg(type='GARBAGE', valid=False, why=str(err))
    m = Msg(valid=True)
    if validate:
        s = schema()
        if not s.validate(tree):
            m['valid'] = False
            m['why'] = str(s.error_log.last_error)
    so = at(tree, 'oadrSignedObject')
    if so is None or not len(so):
        return Msg(type='GARBAGE', valid=False, why='no signed object')
    x = [c for c in so if isinstance(c.tag, str)][0]
    m['type'] = t = ln(x)
    sig = kids(tree, 'Signature')
    m['signed'] = bool(sig)
    if t in ('oadrRequestEvent',):
        x = at(x, 'eiRequestEvent')
    if t in ('oadrCreatedEvent',):
        x = at(x, 'eiCreatedEvent')
    m['ven_id'] = txt(x, 'venID')
    m['vtn_id'] = txt(x, 'vtnID')
    m['request_id'] = txt(x, 'requestID')
    r = at(x, 'eiResponse')
    if r is not None:
        m['code'] = txt(r, 'responseCode')
        m['desc'] = txt(r, 'responseDescription')
        m['response_id'] = txt(r, 'requestID')
    m['registration_id'] = txt(x, 'registrationID')
    if t == 'oadrDistributeEvent':
        m['events'] = [read_event(o) for o in kids(x, 'oadrEvent')]
    elif t == 'oadrCreatedEvent':
        er = at(x, 'eventResponses')
        m['responses'] = [{'code': txt(i, 'responseCode'), 'rq': txt(i, 'requestID'),
                           'id': txt(i, 'qualifiedEventID/eventID'),
                           'mod': int(txt(i, 'qualifiedEventID/modificationNumber')), 'opt': txt(i, 'optType')}
                          for i in (kids(er, 'eventResponse') if er is not None else [])]
    elif t == 'oadrCreatedPartyRegistration':
        m['poll'] = _du(txt(x, 'oadrRequestedOadrPollFreq/duration'))
        m['profiles'] = [txt(p, 'oadrProfileName') for p in kids(at(x, 'oadrProfiles'), 'oadrProfile')]
    elif t == 'oadrCreatePartyRegistration':
        for k, tag in (('profile', 'oadrProfileName'), ('transport', 'oadrTransportName'),
                       ('address', 'oadrTransportAddress'), ('report_only', 'oadrReportOnly'),
                       ('xml_signature', 'oadrXmlSignature'), ('ven_name', 'oadrVenName'),
                       ('pull', 'oadrHttpPullModel')):
            m[k] = txt(x, tag)
    elif t in ('oadrRegisteredReport', 'oadrCreateReport'):
        m['requests'] = [read_report_request(i) for i in kids(x, 'oadrReportRequest')]
    elif t in ('oadrRegisterReport', 'oadrUpdateReport'):
        m['reports'] = [read_report(i) for i in kids(x, 'oadrReport')]
    elif t in ('oadrCreatedReport', 'oadrCanceledReport'):
        p = at(x, 'oadrPendingReports')
        m['pending'] = [k.text or '' for k in kids(p, 'reportRequestID')] if p is not None else []
    elif t == 'oadrUpdatedReport':
        c = at(x, 'oadrCancelReport')
        m['cancel'] = None if c is None else [k.text or '' for k in kids(c, 'reportRequestID')]
    elif t in ('oadrCreateOpt', 'oadrCreatedOpt', 'oadrCancelOpt', 'oadrCanceledOpt'):
        m['opt_id'] = txt(x, 'optID')
        m['opt_type'] = txt(x, 'optType')
        m['reason'] = txt(x, 'optReason')
        m['event_id'] = txt(x, 'qualifiedEventID/eventID')
        m['mod'] = txt(x, 'qualifiedEventID/modificationNumber')
        m['ctx'] = txt(x, 'marketContext')
        m['created'] = _tm(txt(x, 'createdDateTime'))
        v = at(x, 'vavailability/components')
        m['comps'] = [[_tm(txt(a, 'properties/dtstart/date-time')), _du(txt(a, 'properties/duration/duration'))]
                      for a in (kids(v, 'available') if v is not None else [])]
        m['targets'] = [t2 for g in kids(x, 'eiTarget') for t2 in read_targets(g)]
        m['mrid'] = txt(x, 'oadrDeviceClass/endDeviceAsset/mrid')
    return m


def read(data, validate=True):
    try:
        return _read(data, validate)
    except Exception as err:      # e.g. a mandatory element is missing
        try:
            return Msg(_read_type(data), valid=False, why=repr(err))
        except Exception:
            return Msg(type='GARBAGE', valid=False, why=repr(err))


def _read_type(data):
    tree = etree.fromstring(data.encode() if isinstance(data, str) else data)
    return {'type': ln([c for c in at(tree, 'oadrSignedObject') if isinstance(c.tag, str)][0])}
