#!/usr/bin/env python3
"""Rewrites the list of repaired defects in KNOWN_FINDINGS.json from the "fix:" commits of /repo."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Beginning of the subject -> property.
OWNERS = [
    ('keep scoped attributes of a', 'C02'), ("don't lose concurrent reassignment", 'C03'), ('define the declared inequality', 'C04'),
    ('construct records in free', 'C05'), ("don't lose events enqueued", 'C05'), ("don't terminate the application", 'C06'),
    ('honour the overflow', 'C06'), ('default the options of a configured async', 'C06'), ("don't read past the end of empty or", 'C07'),
    ('print negative severities', 'C07'), ('fill the padding', 'C24'), ("don't lose centered", 'C24'), ('accept the separator', 'C07'),
    ("don't truncate configuration", 'C19'), ('refuse patterns with', 'C08'), ('refuse patterns which', 'C08'),
    ("don't leave the time zone", 'C09'), ('respect daylight', 'C09'), ('print seconds since', 'C09'), ("don't treat a letter", 'C09'),
    ("don't drop long", 'C09'), ("don't print garbage", 'C09'), ('write non-finite', 'C10'), ('accept empty and unterminated', 'C10'),
    ('refuse invalid routes', 'C11'), ("don't crash when an attribute is named", 'C11'), ('keep names unique', 'C11'),
    ("don't read past the end of unterminated strings in the TSKV", 'C12'), ('respect renaming', 'C12'), ('escape values', 'C12'),
    ('escape control', 'C12'), ('continue writing to files', 'C13'), ('notice rotation to a file of another', 'C13'), ("report why a file can't", 'C13'), ("refuse data sizes", 'C14'),
    ('refuse out of range ports', 'C15'), ("don't close the system log", 'C17'), ('print terminal colors', 'C18'),
    ("don't overflow the stack while reading", 'C19'), ('refuse JSON configurations with null', 'C19'),
    ('refuse string formatter configurations', 'C20'), ('refuse to build loggers', 'C20'),
    ("don't read past the end of unterminated patterns in the facade", 'C21'), ('keep the kernel thread id', 'C05'),
    ('order string views', 'C23'), ('make hashes of string views', 'C23'), ('refuse widths and precisions', 'C24'),
    ('align non-finite', 'C24'),
    ("don't miss rotation of a file", 'C13'), ('keep scoped attributes of both', 'C02'), ('developer handler shares', 'C18'), ('connect to the configured port', 'C15'), ("don't parse default values", 'C07'), ("don't repeat objects of routes", 'C11'), ("don't destroy replaced filters", 'C03'), ('end the line of an event', 'C18'),
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s%x09%b%x00', 'a8b1b48..HEAD'],
                         stdout=subprocess.PIPE, check=True).stdout.decode()
    fixed = []
    for entry in log.split('\0'):
        entry = entry.strip('\n')
        if not entry:
            continue
        commit, subject, _ = entry.split('\t', 2)
        if not subject.startswith('fix: '):
            continue
        subject = subject[len('fix: '):]
        owners = [p for s, p in OWNERS if subject.startswith(s)]
        if len(owners) != 1:
            sys.exit('whose is it: ' + subject)
        fixed.append('fixed: property=%s %s %s' % (owners[0], commit, subject))
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    with open(path) as f:
        data = json.load(f)
    data['fixed'] = fixed
    with open(path, 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')


main()
