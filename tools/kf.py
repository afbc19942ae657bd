#!/usr/bin/env python3
"""kf.py finding|fixed PID KEY WHAT : append an entry to known-findings.json (used while developing, never by a check)"""
import json, sys, os
F = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/known-findings.json'


def put(status, pid, key, what):
    l = json.load(open(F))
    l = [e for e in l if (e['property'], e['key'], e['status']) != (pid, key, status)]
    l.append({'property': pid, 'key': key, 'status': status, 'what': what})
    with open(F, 'w') as f:
        f.write('[\n' + ',\n'.join(' ' + json.dumps(e, ensure_ascii=False) for e in l) + '\n]\n')


if __name__ == '__main__':
    put(*sys.argv[1:5])
