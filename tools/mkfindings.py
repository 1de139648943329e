#!/usr/bin/env python3
"""Writes known-findings.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('D06', 'ed32d31', 'a PAD whose cache holds one STR kept two snapshots and later answered from the wrong one'),
 ('D05', '8951eeb', 'GetSTRHistory with an evicted epoch dereferenced a missing snapshot (panic)'),
 ('D06', '8951eeb', 'GetSTRHistory with an evicted epoch was not answered with ErrDirectory'),
 ('S04', '6d9092b', 'NewConfig dropped the epoch deadline: a server made by init signed policies with deadline 0 and its timer fired immediately'),
 ('M02', 'e37e624', 'AuthenticationPath.Verify accepted or crashed on paths with a wrong shape (level, index length, missing commitment)'),
 ('C07', 'e37e624', 'a malformed authentication path crashed the client'),
 ('C07', '9d67b2a', 'responses lacking parts (nil proof, no STR, no policies) crashed client and auditor'),
 ('C04', 'ae02360', 'the client remembered the expected key (or nil) instead of the key it received'),
 ('C03', 'ae02360', 'Response.GetKey always returned nil: a lookup never yielded a key'),
 ('C05', 'd0fff53', 'a promised binding that was missing in the next epoch was accepted (broken promise not noticed)'),
 ('M02', 'b62630e', 'a commitment opening with a salt of another length verified for another name/key (bytes shifted between salt, name and key)'),
 ('X02', 'b62630e', 'Commit.Verify accepted salts of any length, so openings were ambiguous'),
 ('C02', '2cd8e13', 'a registration/lookup answer with several proofs: the first was verified, the last one\'s key was remembered'),
 ('C06', '5dcc855', 'the first STR of an auditor\'s range was compared by signature hash only: altered contents were not noticed'),
 ('S01', 'c9b0b8f', 'data race: a listener goroutine read ServerBase.Verb while ConiksServer.Run was setting it for a later address'),
 ('K02', '7178843', 'NewIterator panicked (slice bounds) for a range whose start lies above its limit'),
 ('W01', 'f66c305', 'LoadInitSTR crashed on (or accepted) a file whose JSON lacks the root or the policies'),
 ('X01', '8006300', 'a VRF proof with a multiple of the group order added to its scalar t (other bytes) verified'),
 ('B01', 'fba9669', 'the bot cut the server\'s answer off after 8192 bytes'),
 ('B01', 'af09216', 'a server that went away without answering was reported as an empty answer instead of a directory error'),
 ('I01', '289fb5c', 'an initialisation that found no key at first overwrote one written meanwhile (a second initialisation: mismatching pair)'),
 ('I01', '45a95ba', 'coniksserver init -c replaced an existing TLS key and certificate'),
 ('I01', '5b690c8', 'coniksserver run -p left the last digits of a longer id in coniks.pid'),
 ('I01', 'a80ff62', 'a configuration file named where it was first written, relative to the working directory then: a server started elsewhere saved its initial STR to, and reloaded from, a wrong place'),
 ('C07', 'a4265c7', 'an auditor\'s answer with an unknown status code was accepted by CheckEquivocation'),
 ('C06', 'a4265c7', 'an auditor\'s answer with an unknown status code was accepted by CheckEquivocation'),
]
POL = ('the serialized policies are not length-delimited, so moving bytes from Policies.HashID to Policies.Version '
       'leaves the signature of an STR valid: the altered STR is accepted')
KNOWN = [(p, f, c, '[%s, %s] ' % (c, f) + POL) for p, f, c in [
    ('C01', 'trusted root polshift', 'Resp'), ('C01', 'accepted polshift', 'Resp'),
    ('C02', 'accepted polshift', 'Resp'), ('C02', 'trusted root polshift', 'Resp'),
    ('C06', 'comparison polshift', 'Equiv'),
    ('A01', 'audit polshift', 'Audit'), ('A01', 'log polshift', 'Audit')]]
KNOWN.append(('K01', 'manifest forced out before its use', 'Opened',
              '[Opened, manifest forced out before its use] goleveldb v1.0.0 (a dependency) points CURRENT to a new manifest it has not '
              'synced: if the machine crashes before the manifest reaches the disk, the database cannot be opened again'))
with open(os.path.join(V, 'known-findings.jsonl'), 'w') as f:
    for p, c, w in FIXED:
        f.write(json.dumps(dict(status='fixed', property=p, commit=c, text='fixed: property=%s %s %s' % (p, c, w))) + '\n')
    for p, fl, c, w in KNOWN:
        f.write(json.dumps(dict(status='known', property=p, field=fl, call=c, what=w)) + '\n')
