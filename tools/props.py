#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/cssrlib/'
P = []


def prop(id_, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id_, title=title, statement=statement, over=over,
                  text=text, why=why, files=[S+f for f in files],
                  mech=[dict(name=a, where=S+b) for a, b in mech], na=na))


prop('C01', 'Time systems and calendar convert exactly and invert',
     'Converting between a GPS, Galileo or BeiDou week and seconds of week and the internal time is exact and invertible, with BDT 14 s behind GPST and week offsets 1356 (BDT) and 1024 (GST); calendar dates 1970-2099 and day of year follow the Gregorian calendar; UTC-GPST applies the published leap seconds. Adding or subtracting seconds never loses time and never changes its argument. A time of day, or a time known modulo a day or week, is resolved to the instant within half a period of the reference.',
     ['inputs'], 'every week 0..4095 and second of week (2^-20 s grid), every second 1970-2099, every offset within the stated ranges',
     'tests convert a few fixed epochs; week/day/leap/month boundaries among billions of instants are not sampled',
     ['gnss.py'], [('gpst2time/time2gpst, gst, bdt', 'gnss.py'), ('epoch2time/time2epoch', 'gnss.py'), ('gpst2utc/utc2gpst leap table', 'gnss.py'), ('adjtime, tod2tow, glo2time', 'gnss.py')])
prop('C02', 'Satellite numbering is a bijection with RINEX identifiers',
     'Each supported satellite (GPS 1-32, Galileo 1-36, QZSS 193-209, BeiDou 1-63, GLONASS 1-32, SBAS 120-158, NavIC 1-14) has its own satellite number between 1 and the maximum, and every number in that range belongs to exactly one satellite. Number to system/PRN, and number to three-character RINEX identifier, convert back to the same satellite.',
     ['inputs'], 'every PRN of every system and every satellite number', 'tests convert a handful of satellites',
     ['gnss.py'], [('prn2sat/sat2prn', 'gnss.py'), ('sat2id/id2sat', 'gnss.py'), ('char2sys/sys2char', 'gnss.py')])
prop('C03', 'Signal codes and carrier frequencies match the RINEX tables',
     'A valid RINEX observation code round-trips through the signal representation (text, equality, hash, change of observation type), distinct codes are distinct signals, and codes whose attribute is not defined for that system and band are rejected. The carrier frequency (and wavelength) of every band is the published one, GLONASS FDMA being centre plus channel times spacing and undefined without a channel.',
     ['inputs'], 'all systems, band digits, attribute letters, observation types and GLONASS channels -7..13', 'tests check a few codes; a wrong table entry for one system/band is invisible to them',
     ['gnss.py'], [('rSigRnx.str2sig/str/frequency/wavelength', 'gnss.py'), ('uSIG and FREQ_* tables', 'gnss.py')])
exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read())

TECH = ('symbolic execution of the real Python functions (own engine, '
        'encoding regenerated from /repo at every run), obligations decided '
        'by the z3 SMT solver, counterexamples replayed on the unpatched '
        'code')
NOTE = ('bounded symbolic model checking: every path of the named functions '
        'within the bounds written to the evidence file; float64 read as '
        'exact reals (tolerances stated), stand-ins for numpy/math/bitstruct '
        'trusted; counterexamples and sampled path witnesses are replayed in '
        'float64 on the real code')


def main():
    ids = [p['id'] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=p['mech'],
                             hook_needed=None)))+'\n')
    checks, na = [], []
    for p in P:
        c = os.path.join(HERE, 'checks', p['id'].lower()+'.py')
        if os.path.exists(c) and not p['na']:
            cmd = f'python3-vt /verif/run.py --property {p["id"]}'
            checks.append(dict(property=p['id'], quick_cmd=cmd+' --tier quick',
                               thorough_cmd=cmd+' --tier thorough',
                               technique=TECH, level='model_checking',
                               level_note=NOTE))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or
                           'no check built yet'))
    json.dump(dict(version=1, setup_cmd='python3-vt /verif/run.py --selftest',
                   checks=checks, not_applicable=na,
                   notes='See DESIGN.md. No hooks in /repo: the engine binds '
                   'the names the modules import at run time.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
